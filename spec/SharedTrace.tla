---------------------------- MODULE SharedTrace ----------------------------
(* Recorded histories of the real library against Shared: processes with one *)
(* or many threads, each a sequence of asks and returns in the order of a    *)
(* global ticket.  What a call returns alone was recorded from processes of  *)
(* their own, or, for the calls not tried alone, once from some history.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* answers: call -> observation; needs: call -> BOOLEAN; runs: [threads, events: << <<kind, thread, call, observation>> >>]
File == JsonDeserialize("run.json")
Answers == File.answers
NeedsTable == File.needs
Runs == File.runs
MostThreads == File.threads

VARIABLES pc, asked, got, cell, run, at, bad

Threads == 1..MostThreads
Calls == DOMAIN Answers
Needs(c) == NeedsTable[c]
Answer(c) == Answers[c]
S == INSTANCE Shared WITH Idle <- 0

Init == S!Init /\ run \in DOMAIN Runs /\ at = 1 /\ bad = 0

Event == Runs[run].events[at]
Quiet == UNCHANGED <<run, at, bad>>
Consumed(ok) == /\ at' = at + 1 /\ run' = run
                /\ bad' = bad + (IF ok THEN 0 ELSE 1)
                /\ IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", run, at>>)

\* A thread may start a call only when it has none, and what returns is what it asked for.
Asked == /\ Event[1] = 1
         /\ S!Ask(Event[2], Event[3])
         /\ Consumed(TRUE)
\* The steps inside a call are not recorded: they are taken when it returns.
Inside == /\ Event[1] = 2
          /\ LET t == Event[2] IN S!Fill(t) \/ S!Filled(t) \/ S!Begin(t) \/ S!Compute(t)
          /\ Quiet
Returned == /\ Event[1] = 2
            /\ LET t == Event[2]
                   ok == asked[t] = Event[3] /\ got[t] = Event[4]
               IN  S!Return(t) /\ Consumed(ok)

Next == at <= Len(Runs[run].events) /\ (Asked \/ Inside \/ Returned)
Spec == Init /\ [][Next]_<<pc, asked, got, cell, run, at, bad>>

\* The whole of every recording was followed.
Followed == (~ENABLED Next) => at = Len(Runs[run].events) + 1
Pure == S!S_Pure /\ S!S_OneFills
=============================================================================
