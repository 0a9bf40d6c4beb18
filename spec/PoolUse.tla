------------------------------- MODULE PoolUse -------------------------------
(* Histories of the holders of a pool: take, use, put back. Every history of Length steps is printed; the harness
   replays each on the real pool and TemplateTrace decides what was seen. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Length == atoi(IOEnv.LENGTH)
MaxHeld == atoi(IOEnv.HELD)
VARIABLES hist, held, next
Init == hist = <<>> /\ held = {} /\ next = 1

Add(op, s, x) == hist' = Append(hist, [op |-> op, s |-> s, x |-> x])
Get == /\ Cardinality(held) < MaxHeld /\ held' = held \cup {next} /\ next' = next + 1 /\ Add("get", next, "")
Put(s) == s \in held /\ held' = held \ {s} /\ Add("put", s, "") /\ UNCHANGED next
Last == IF hist = <<>> THEN [op |-> "", s |-> 0, x |-> ""] ELSE hist[Len(hist)]
\* what holders do with a state: succeed, fail, assign a variable from outside, reset
Use(s) == /\ s \in held /\ UNCHANGED <<held, next>>
          /\ \E x \in {"ok", "fail", "set", "reset"} :
               /\ ~(Last.s > s /\ Last.op = "use")           \* uses of different states commute
               /\ ~(Last.op = "use" /\ Last.s = s /\ Last.x = x)
               /\ Add("use", s, x)
Emit == PrintT("@@" \o ToJson(hist'))
Next == /\ Len(hist) < Length
        /\ Get \/ \E s \in held : Put(s) \/ Use(s)
        /\ Len(hist') = Length => Emit
Spec == Init /\ [][Next]_<<hist, held, next>>
NeverTwice == Cardinality(held) <= MaxHeld
=============================================================================
