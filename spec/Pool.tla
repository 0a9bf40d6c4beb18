--------------------------------- MODULE Pool ---------------------------------
(* A pool of states, at the level of the atomic steps of its operations, with any number of goroutines.

   The pool keeps put back states in a bag that may lose items at any time and hands out any of them, or a new one
   (sync.Pool); a state is marked when it is taken. Checked: a state has at most one holder, what a goroutine gets is
   clean, and every call returns. *)
EXTENDS Integers, FiniteSets

CONSTANTS Procs, Size, MaxStates, KeepMark   \* KeepMark: Reset leaves the mark on the state, so it is never taken again
VARIABLES pc, mine, bag, made, taken, dirty, counter
vars == <<pc, mine, bag, made, taken, dirty, counter>>

States == 1..MaxStates
Init == /\ pc = [p \in Procs |-> "out"] /\ mine = [p \in Procs |-> 0] /\ bag = {} /\ made = 0
        /\ taken = [s \in States |-> FALSE] /\ dirty = [s \in States |-> FALSE] /\ counter = 0

Enter(p) == /\ pc[p] = "out" /\ pc' = [pc EXCEPT ![p] = "get"] /\ counter' = counter + 1
            /\ made < MaxStates          \* bound of the model: a new state is always possible
            /\ UNCHANGED <<mine, bag, made, taken, dirty>>
\* sync.Pool.Get
FromBag(p) == \E s \in bag : /\ pc[p] = "get" /\ bag' = bag \ {s} /\ mine' = [mine EXCEPT ![p] = s]
                             /\ pc' = [pc EXCEPT ![p] = "take"] /\ UNCHANGED <<made, taken, dirty, counter>>
New(p) == /\ pc[p] = "get" /\ made < MaxStates /\ made' = made + 1 /\ mine' = [mine EXCEPT ![p] = made + 1]
          /\ pc' = [pc EXCEPT ![p] = "take"] /\ UNCHANGED <<bag, taken, dirty, counter>>
\* state.Take
Take(p) == /\ pc[p] = "take"
           /\ IF taken[mine[p]] THEN pc' = [pc EXCEPT ![p] = "get"] /\ mine' = [mine EXCEPT ![p] = 0] /\ UNCHANGED taken
              ELSE pc' = [pc EXCEPT ![p] = "hold"] /\ taken' = [taken EXCEPT ![mine[p]] = TRUE] /\ UNCHANGED mine
           /\ UNCHANGED <<bag, made, dirty, counter>>
Use(p) == /\ pc[p] = "hold" /\ ~dirty[mine[p]] /\ dirty' = [dirty EXCEPT ![mine[p]] = TRUE]
          /\ UNCHANGED <<pc, mine, bag, made, taken, counter>>
\* Put
Leave(p) == /\ pc[p] = "hold" /\ counter' = counter - 1
            /\ IF counter - 1 > Size - 1 THEN pc' = [pc EXCEPT ![p] = "out"] /\ mine' = [mine EXCEPT ![p] = 0]
               ELSE pc' = [pc EXCEPT ![p] = "reset"] /\ UNCHANGED mine
            /\ UNCHANGED <<bag, made, taken, dirty>>
Reset(p) == /\ pc[p] = "reset" /\ dirty' = [dirty EXCEPT ![mine[p]] = FALSE] /\ taken' = [taken EXCEPT ![mine[p]] = KeepMark]
            /\ pc' = [pc EXCEPT ![p] = "back"] /\ UNCHANGED <<mine, bag, made, counter>>
Back(p) == /\ pc[p] = "back" /\ bag' = bag \cup {mine[p]} /\ mine' = [mine EXCEPT ![p] = 0]
           /\ pc' = [pc EXCEPT ![p] = "out"] /\ UNCHANGED <<made, taken, dirty, counter>>
Lose == /\ \E s \in bag : bag' = bag \ {s}
        /\ UNCHANGED <<pc, mine, made, taken, dirty, counter>>

Step(p) == FromBag(p) \/ New(p) \/ Take(p) \/ Use(p) \/ Leave(p) \/ Reset(p) \/ Back(p)
Next == Lose \/ \E p \in Procs : Enter(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(FromBag(p) \/ New(p)) /\ WF_vars(Take(p)) /\ WF_vars(Reset(p)) /\ WF_vars(Back(p))

Holding(p) == pc[p] \in {"hold", "reset"}
OneHolder == \A p, q \in Procs : p # q /\ Holding(p) /\ Holding(q) => mine[p] # mine[q]
NotInBag == \A p \in Procs : Holding(p) => mine[p] \notin bag
CleanWhenTaken == [][\A p \in Procs : pc[p] = "take" /\ pc'[p] = "hold" => ~dirty'[mine[p]]]_vars
\* every call returns unless the model has run out of states
Returns == \A p \in Procs : pc[p] = "get" ~> (pc[p] = "hold" \/ made = MaxStates)
=============================================================================
