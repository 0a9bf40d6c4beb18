-------------------------------- MODULE Digits --------------------------------
(* Decimal texts of 64 bit integers: every pair of digits at every place of numbers of every length, what surrounds the
   powers of ten, and the bounds. An integer is written as its own decimal text. *)
EXTENDS Values, IOUtils
VARIABLES n, done
D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Fill(_, _)
Fill(c, k) == IF k = 0 THEN "" ELSE c \o Fill(c, k - 1)
Digits(len, at, a, b, c) == Fill(c, at - 1) \o D[a] \o D[b] \o Fill(c, len - at - 1)
Init == n \in 1..19 /\ done = 0
Texts == CASE n = 1 -> {D[i] : i \in 1..10}
           [] OTHER -> {x \in {Digits(n, at, a, b, c) : at \in 1..(n - 1), a \in 1..10, b \in 1..10, c \in {"1", "8"}} : At(x, 1) # "0"}
                       \cup {"1" \o Fill("0", n - 1), Fill("9", n)}
                       \cup (IF n = 19 THEN {"9223372036854775807", "9223372036854775806", "9223372036854775799"} ELSE {})
\* those a signed 64 bit integer holds
Held == {x \in Texts : n < 19 \/ ~StrLess("9223372036854775807", x)}
Next == /\ done = 0 /\ done' = 1 /\ n' = n
        /\ PrintT("@@" \o ToJson([len |-> n, texts |-> SetToSeq(Held) \o SetToSeq({"-" \o x : x \in Held \ {"0"}}) \o (IF n = 19 THEN <<"-9223372036854775808">> ELSE <<>>)]))
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
