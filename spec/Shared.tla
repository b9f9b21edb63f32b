------------------------------- MODULE Shared -------------------------------
(* Threads calling the library.  The built-in database initialises itself    *)
(* when it is first needed: whoever comes first does it, the others wait.    *)
(* Apart from that a call is a function of its arguments.                    *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Calls, Idle
CONSTANTS Needs(_),      \* does the call use the built-in database?
          Answer(_)      \* what the call returns alone

VARIABLES
  pc,      \* thread -> "idle", "asked", "filling", "computing", "answered"
  asked,   \* thread -> the call, or Idle
  got,     \* thread -> the answer, or Idle
  cell     \* the built-in database: "cold", "busy", "ready"
vars == <<pc, asked, got, cell>>

Init == /\ pc = [t \in Threads |-> "idle"] /\ asked = [t \in Threads |-> Idle]
        /\ got = [t \in Threads |-> Idle] /\ cell = "cold"

Ask(t, c) == /\ pc[t] = "idle"
             /\ pc' = [pc EXCEPT ![t] = "asked"] /\ asked' = [asked EXCEPT ![t] = c]
             /\ UNCHANGED <<got, cell>>
\* The first to need the database fills it.
Fill(t) == /\ pc[t] = "asked" /\ Needs(asked[t]) /\ cell = "cold"
           /\ pc' = [pc EXCEPT ![t] = "filling"] /\ cell' = "busy"
           /\ UNCHANGED <<asked, got>>
Filled(t) == /\ pc[t] = "filling"
             /\ pc' = [pc EXCEPT ![t] = "asked"] /\ cell' = "ready"
             /\ UNCHANGED <<asked, got>>
Begin(t) == /\ pc[t] = "asked" /\ (Needs(asked[t]) => cell = "ready")
            /\ pc' = [pc EXCEPT ![t] = "computing"]
            /\ UNCHANGED <<asked, got, cell>>
Compute(t) == /\ pc[t] = "computing"
              /\ pc' = [pc EXCEPT ![t] = "answered"] /\ got' = [got EXCEPT ![t] = Answer(asked[t])]
              /\ UNCHANGED <<asked, cell>>
Return(t) == /\ pc[t] = "answered"
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ asked' = [asked EXCEPT ![t] = Idle] /\ got' = [got EXCEPT ![t] = Idle]
             /\ UNCHANGED cell

Work(t) == Fill(t) \/ Filled(t) \/ Begin(t) \/ Compute(t) \/ Return(t)
Next == \E t \in Threads : (\E c \in Calls : Ask(t, c)) \/ Work(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Work(t))

-----------------------------------------------------------------------------
S_Type == /\ pc \in [Threads -> {"idle", "asked", "filling", "computing", "answered"}]
          /\ cell \in {"cold", "busy", "ready"}
\* One fills, and nobody reads before that is done.
S_OneFills == /\ Cardinality({t \in Threads : pc[t] = "filling"}) <= 1
              /\ (cell = "busy") = (\E t \in Threads : pc[t] = "filling")
S_Ready == \A t \in Threads : pc[t] \in {"computing", "answered"} /\ Needs(asked[t]) => cell = "ready"
\* C13: whatever the others do, and did before, the answer is that of the call alone.
S_Pure == \A t \in Threads : pc[t] = "answered" => got[t] = Answer(asked[t])
S_Once == [][cell = "ready" => cell' = "ready"]_vars
S_Live == \A t \in Threads : (pc[t] = "asked") ~> (pc[t] = "idle")
=============================================================================
