------------------------------ MODULE PoolTrace ------------------------------
(* Logs of goroutines sharing a pool. "get" is logged after the state was obtained and "put" before it is put back, so
   that holders overlapping in the log held the state at the same time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, i, held, verdict     \* held: pairs of goroutine and state
vars == <<ci, i, held, verdict>>
Log == Cases[ci].log
Init == ci \in 1..Len(Cases) /\ i = 1 /\ held = {} /\ verdict = ""
E == Log[i]    \* [op, g, s, x]
Wrong == verdict' = E.op \o " of goroutine " \o ToString(E.g) \o ", state " \o ToString(E.s) \o ": " \o E.x /\ UNCHANGED held
Get == /\ E.op = "get"
       /\ IF E.x # "clean" THEN Wrong
          ELSE IF \E h \in held : h[2] = E.s THEN verdict' = "state " \o ToString(E.s) \o " is held already" /\ UNCHANGED held
          ELSE held' = held \cup {<<E.g, E.s>>} /\ UNCHANGED verdict
Use == E.op = "use" /\ IF E.x = "right" THEN UNCHANGED <<held, verdict>> ELSE Wrong
Put == E.op = "put" /\ held' = held \ {<<E.g, E.s>>} /\ UNCHANGED verdict
Step == /\ verdict = "" /\ i <= Len(Log) /\ (Get \/ Use \/ Put) /\ i' = i + 1 /\ UNCHANGED ci
End == /\ verdict # "done" /\ (verdict # "" \/ i > Len(Log))
       /\ PrintT("@@" \o ToJson([i |-> ci, v |-> IF verdict = "" THEN "ok" ELSE "bad", what |-> verdict, at |-> i]))
       /\ verdict' = "done" /\ UNCHANGED <<ci, i, held>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
View == <<ci, i, verdict>>
OneHolder == \A a, b \in held : a # b => a[2] # b[2]
=============================================================================
