--------------------------------- MODULE Soup ---------------------------------
(* Texts made of the pieces of the language in any order. What compiling one does is one of two things, a plan or an
   error; every text of up to Length pieces is printed (all of them, or those of random walks in simulation mode). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Length == CHOOSE n \in 0..40 : ToString(n) = IOEnv.LENGTH
Least == CHOOSE n \in 0..40 : ToString(n) = IOEnv.LEAST      \* shorter ones are not printed
Pieces == {"$", "$!", "{", "}", "${a", "$a", "$s.A", "$u.b", "$l[", "]", "$s.Join(", "$fii(", "(", ")", ",", "#if(", "#if", "#elseif(", "#else", "#end", "#{end}", "#{else}",
  "#foreach(", "$x in $l", " in ", "[1...3]", "...", "#for(", ";", " = ", "++", "+=", "#set(", "#evaluate(", "#[[", "]]#", "##", "\n", "\"", "'", "1", "1.5", "99999999999999999999", "-", "true", "!",
  " && ", " || ", "==", "<", " + ", "*", "/", "a", " ", "\\", "#", ".", "%", "$math.Abs(", "$l.", "$m[\"k\"]"}
VARIABLES n, text
Init == n = 0 /\ text = ""
Next == /\ n < Length /\ n' = n + 1
        /\ \E p \in Pieces : text' = text \o p
        /\ n' >= Least => PrintT("@@" \o ToJson(text'))
Spec == Init /\ [][Next]_<<n, text>>
View == text
=============================================================================
