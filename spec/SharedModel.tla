---------------------------- MODULE SharedModel ----------------------------
(* All interleavings of a few threads and calls.  Call 0 does not need the   *)
(* built-in database; the answer of a call is that of it alone.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Calls
VARIABLES pc, asked, got, cell
Needs(c) == c # 0
Answer(c) == c * 2
INSTANCE Shared WITH Idle <- -1
Symmetric == INSTANCE TLC
Same == Symmetric!Permutations(Threads)
=============================================================================
