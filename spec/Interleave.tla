------------------------------ MODULE Interleave ------------------------------
(* Schedules of Procs executions that switch at up to Gates places each: every interleaving is printed. Executions share
   nothing but the plan, so that what each of them shows does not depend on the schedule: the machine of TemplateTrace,
   which knows nothing of schedules, decides every one of them on its own. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Num(s) == CHOOSE n \in 0..20 : ToString(n) = s
Procs == Num(IOEnv.PROCS)
Gates == Num(IOEnv.GATES)
VARIABLES left, sched
Init == left = [p \in 1..Procs |-> Gates] /\ sched = <<>>
Next == \E p \in 1..Procs :
          /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
          /\ sched' = Append(sched, p)
          /\ (\A q \in 1..Procs : left'[q] = 0) => PrintT("@@" \o ToJson(sched'))
Spec == Init /\ [][Next]_<<left, sched>>
=============================================================================
