-------------------------------- MODULE Trace --------------------------------
(* Validation of a recorded run of the real library.  The recording is cut   *)
(* into lanes that are followed independently; every step consumes one call  *)
(* and its observation.  A step that the specification does not allow is     *)
(* reported, and counted in `bad'.                                           *)
EXTENDS Conform, TLC

\* Literal names: TLC evaluates these once, before it starts.
RunFile == JsonDeserialize("run.json")      \* [docs |-> event lists, texts |-> table, lanes |-> number]
Calls == ndJsonDeserialize("ops.ndjson")
Seen == ndJsonDeserialize("obs.ndjson")

Lanes == Run.lanes

VARIABLES lane, at, bad

Init == lane \in 1..Lanes /\ at = lane - Lanes /\ bad = 0

Consume ==
  LET i == at + Lanes
      d == Diff(Calls[i], Seen[i])
  IN  /\ i <= Len(Calls)
      /\ at' = i
      /\ bad' = bad + (IF d = {} THEN 0 ELSE 1)
      /\ IF d = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, d>>)
      /\ UNCHANGED lane

Next == Consume
=============================================================================
