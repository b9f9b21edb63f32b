------------------------------- MODULE Regex -------------------------------
(* Regular expressions with the leftmost-first ("Perl") semantics of the    *)
(* numbering-plan patterns, as a backtracking matcher over syntax trees.    *)
(*                                                                          *)
(* A string is a sequence of code points.  A pattern is a sequence of nodes *)
(*   [k |-> "c", c |-> 48]                       one literal code point     *)
(*   [k |-> "d", d |-> <<b0, ..., b9>>]          a set of ASCII digits      *)
(*   [k |-> "s", r |-> <<<<lo, hi>>, ...>>]      a set of code points       *)
(*   [k |-> "g", n |-> i, b |-> pattern]         group; n = 0: no capture   *)
(*   [k |-> "a", o |-> <<pattern, ...>>]         ordered alternatives       *)
(*   [k |-> "r", lo |-> i, hi |-> j, b |-> p]    greedy repeat; hi = -1: oo *)
(*   [k |-> "$"]                                 end of the text            *)
(* A match is <<end, caps>>: `end' the index after the last matched code    *)
(* point, caps[n] = <<from, end>> of the n-th group or <<>> if it took no   *)
(* part.  No match is <<>>.                                                 *)
EXTENDS Integers, Sequences

InSet(nd, c) ==
  CASE nd.k = "c" -> c = nd.c
    [] nd.k = "d" -> c >= 48 /\ c <= 57 /\ nd.d[c - 47]
    [] nd.k = "s" -> \E x \in DOMAIN nd.r : nd.r[x][1] <= c /\ c <= nd.r[x][2]

IsChar(nd) == nd.k \in {"c", "d", "s"}

\* The length of the longest run of characters in the set from index i on, up to `max'.
RECURSIVE RunLen(_, _, _, _)
RunLen(nd, s, i, max) ==
  IF max = 0 \/ i > Len(s) THEN 0
  ELSE IF InSet(nd, s[i]) THEN 1 + RunLen(nd, s, i + 1, max - 1)
  ELSE 0

RECURSIVE MatchSeq(_, _, _, _, _, _), MatchAlt(_, _, _, _, _, _),
          MatchRep(_, _, _, _, _, _, _), MatchRun(_, _, _, _, _, _), Cont(_, _, _, _)

\* What remains to be matched after the current sub-pattern.
Cont(k, s, i, caps) ==
  CASE k.t = "done"  -> <<i, caps>>
    [] k.t = "end"   -> IF i = Len(s) + 1 THEN <<i, caps>> ELSE <<>>
    [] k.t = "seq"   -> MatchSeq(k.b, k.j, k.k, s, i, caps)
    [] k.t = "close" -> Cont(k.k, s, i, [caps EXCEPT ![k.n] = <<k.st, i>>])
    [] k.t = "rep"   -> IF i = k.st THEN Cont(k.k, s, i, caps)   \* an empty round ends the loop
                        ELSE MatchRep(k.nd, k.c, k.k, s, i, caps, 0)

\* Try nodes b[j], b[j+1], ... and then k.
MatchSeq(b, j, k, s, i, caps) ==
  IF j > Len(b) THEN Cont(k, s, i, caps)
  ELSE LET nd == b[j] IN
    IF IsChar(nd) THEN
      IF i <= Len(s) /\ InSet(nd, s[i]) THEN MatchSeq(b, j + 1, k, s, i + 1, caps) ELSE <<>>
    ELSE
      LET k2 == IF j = Len(b) THEN k ELSE [t |-> "seq", b |-> b, j |-> j + 1, k |-> k] IN
      CASE nd.k = "g" -> IF nd.n = 0 THEN MatchSeq(nd.b, 1, k2, s, i, caps)
                         ELSE MatchSeq(nd.b, 1, [t |-> "close", n |-> nd.n, st |-> i, k |-> k2], s, i, caps)
        [] nd.k = "a" -> MatchAlt(nd.o, 1, k2, s, i, caps)
        [] nd.k = "r" -> IF Len(nd.b) = 1 /\ IsChar(nd.b[1])
                         THEN LET n == RunLen(nd.b[1], s, i, IF nd.hi < 0 THEN Len(s) ELSE nd.hi)
                              IN  MatchRun(n, nd.lo, k2, s, i, caps)
                         ELSE MatchRep(nd, 0, k2, s, i, caps, 0)
        [] nd.k = "$" -> IF i = Len(s) + 1 THEN Cont(k2, s, i, caps) ELSE <<>>

MatchAlt(o, x, k, s, i, caps) ==
  IF x > Len(o) THEN <<>>
  ELSE LET m == MatchSeq(o[x], 1, k, s, i, caps)
       IN  IF m # <<>> THEN m ELSE MatchAlt(o, x + 1, k, s, i, caps)

\* A greedy repeat that has completed c rounds.
MatchRep(nd, c, k, s, i, caps, z) ==
  LET again == IF nd.hi >= 0 /\ c >= nd.hi THEN <<>>
               ELSE MatchSeq(nd.b, 1, [t |-> "rep", nd |-> nd, c |-> c + 1, st |-> IF c < nd.lo THEN 0 ELSE i, k |-> k],
                             s, i, caps)
  IN  IF again # <<>> THEN again
      ELSE IF c >= nd.lo THEN Cont(k, s, i, caps)
      ELSE <<>>

\* A greedy repeat of one character set of which n rounds are possible.
MatchRun(n, lo, k, s, i, caps) ==
  IF n < lo THEN <<>>
  ELSE LET m == Cont(k, s, i + n, caps)
       IN  IF m # <<>> THEN m ELSE MatchRun(n - 1, lo, k, s, i, caps)

NoCaps(re) == [n \in 1..re.g |-> <<>>]
Done == [t |-> "done"]
AtEnd == [t |-> "end"]

\* re = [b |-> pattern, g |-> number of capturing groups]
MatchAt(re, s, i)   == MatchSeq(re.b, 1, Done, s, i, NoCaps(re))
MatchHead(re, s)    == MatchAt(re, s, 1)
StartsWith(re, s)   == MatchHead(re, s) # <<>>
MatchesWhole(re, s) == MatchSeq(re.b, 1, AtEnd, s, 1, NoCaps(re)) # <<>>

\* The leftmost match at or after i: <<start, end, caps>>, or <<>>.
RECURSIVE FindFrom(_, _, _)
FindFrom(re, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET m == MatchAt(re, s, i)
       IN  IF m # <<>> THEN <<i, m[1], m[2]>> ELSE FindFrom(re, s, i + 1)
Find(re, s) == FindFrom(re, s, 1)

\* The text a group took, as <<text>>, or <<>>.
GroupText(s, caps, n) ==
  IF caps[n] = <<>> THEN <<>> ELSE <<SubSeq(s, caps[n][1], caps[n][2] - 1)>>
=============================================================================
