-------------------------------- MODULE Blocks --------------------------------
(* Which sequences of block directives are templates, and what tree each of them is: a stack of open blocks. Prints
   every sequence of up to Length directives that may be the start of a template, with its tree if it is one as it
   stands, and every one that stops being one with its last directive. Text follows each directive. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Length == CHOOSE n \in 0..20 : ToString(n) = IOEnv.LENGTH
VARIABLES n, src, stack, root
vars == <<n, src, stack, root>>
Init == n = 0 /\ src = "" /\ stack = <<>> /\ root = <<>>

Text(s) == [o |-> "text", s |-> s]
Path(id) == [o |-> "path", id |-> id, st |-> <<>>, call |-> 0, args |-> <<>>]
IntLit(i) == [o |-> "lit", t |-> [k |-> "int"], v |-> [k |-> "i", v |-> i]]
C == "c" \o ToString((n % 3) + 1)
J == "j" \o ToString(n)
Mark == " " \o ToString(n) \o "~"

Top == stack[Len(stack)]
\* adds a statement to the innermost open block
Put(st, rt, x) ==
  IF st = <<>> THEN <<st, Append(rt, x)>>
  ELSE LET t == st[Len(st)]
           t2 == IF t.k = "if" THEN (IF t.inElse THEN [t EXCEPT !.el = Append(@, x)]
                                     ELSE [t EXCEPT !.br = [@ EXCEPT ![Len(t.br)].b = Append(@, x)]])
                 ELSE [t EXCEPT !.b = Append(@, x)] IN
       <<[st EXCEPT ![Len(st)] = t2], rt>>
Node(t) == CASE t.k = "if" -> [o |-> "if", br |-> t.br, hasel |-> IF t.inElse THEN 1 ELSE 0, el |-> t.el]
             [] t.k = "each" -> [o |-> "each", v |-> "x", in |-> [o |-> "rng", a |-> 1, z |-> 3], b |-> t.b]
             [] OTHER -> [o |-> "for", v |-> Path(t.j), e |-> IntLit(0), c |-> [o |-> "chain", a |-> <<Path(t.j), IntLit(2)>>, ops |-> <<"<">>],
                          pv |-> Path(t.j), pop |-> "++", pe |-> IntLit(1), b |-> t.b]
\* what it is when every open block ends here
RECURSIVE Ended(_, _)
Ended(st, rt) == IF st = <<>> THEN rt ELSE LET p == Put(SubSeq(st, 1, Len(st) - 1), rt, Node(st[Len(st)])) IN Ended(p[1], p[2])
RECURSIVE Ends(_)
Ends(k) == IF k = 0 THEN "" ELSE "#end" \o Ends(k - 1)
Become(text, st, rt) ==
  LET p == Put(st, rt, Text(Mark)) IN
  /\ n' = n + 1 /\ src' = src \o text \o Mark /\ stack' = p[1] /\ root' = p[2]
  /\ PrintT("@@" \o ToJson([src |-> src', ok |-> IF stack' = <<>> THEN 1 ELSE 0, ast |-> IF stack' = <<>> THEN root' ELSE <<[o |-> "misnested"]>>]))
  /\ (stack' # <<>> /\ n' < Length) => PrintT("@@" \o ToJson([src |-> src' \o Ends(Len(stack')), ok |-> 1, ast |-> Ended(stack', root')]))
Open(text, frame) == Become(text, Append(stack, frame), root)
Refused(text) == PrintT("@@" \o ToJson([src |-> src \o text \o Mark \o Ends(Len(stack)), ok |-> 0, ast |-> <<[o |-> "misnested"]>>]))

If == Open("#if($" \o C \o ")", [k |-> "if", br |-> <<[c |-> Path(C), b |-> <<>>]>>, el |-> <<>>, inElse |-> FALSE])
Each == Open("#foreach($x in [1...3])", [k |-> "each", b |-> <<>>])
For == Open("#for($" \o J \o " = 0; $" \o J \o " < 2; $" \o J \o "++)", [k |-> "for", j |-> J, b |-> <<>>])
InIf == stack # <<>> /\ Top.k = "if"
ElseIf == LET text == "#elseif($" \o C \o ")" IN
  IF ~InIf THEN Refused(text) /\ FALSE
  ELSE /\ ~Top.inElse
       /\ Become(text, [stack EXCEPT ![Len(stack)].br = Append(@, [c |-> Path(C), b |-> <<>>])], root)
Else == IF ~InIf THEN Refused("#else") /\ FALSE
        ELSE ~Top.inElse /\ Become("#else", [stack EXCEPT ![Len(stack)].inElse = TRUE], root)
End == IF stack = <<>> THEN Refused("#end") /\ FALSE
       ELSE LET p == Put(SubSeq(stack, 1, Len(stack) - 1), root, Node(Top)) IN Become("#end", p[1], p[2])
Next == n < Length /\ (If \/ Each \/ For \/ ElseIf \/ Else \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
