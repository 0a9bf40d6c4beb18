-------------------------------- MODULE Buffer --------------------------------
(* The output buffer: a text that grows by what is appended to it, whatever storage it has. Every history of Length
   operations is printed with the content expected after each operation; in simulation mode (DEEP = 1) the alphabet is
   wider and histories longer. *)
EXTENDS Values, IOUtils

Length == DecVal(IOEnv.LENGTH, 0)
Deep == IOEnv.DEEP = "1"
Sizes == IF Deep THEN {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 64, 65, 66, 67, 70, 89, 128, 144, 1024} ELSE {0, 1, 2, 64, 66}
VARIABLES size, esc, ops, want, content
vars == <<size, esc, ops, want, content>>
Init == size \in Sizes /\ esc \in {0, 1} /\ ops = <<>> /\ want = <<>> /\ content = ""

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Times(s, n \div 2) IN h \o h ELSE s \o Times(s, n - 1)
Do(op, x, text) == /\ ops' = Append(ops, <<op, x>>)
                   /\ content' = content \o text /\ want' = Append(want, content')
                   /\ UNCHANGED <<size, esc>>
Escaped(s) == IF esc = 1 THEN HtmlEscape(s) ELSE s
Bytes == IF Deep THEN {"a", "<", " ", "\n"} ELSE {"<"}
Ints == IF Deep THEN {"0", "7", "10", "99", "100", "-1", "-10", "12345", "9223372036854775807", "-9223372036854775808", "1000000000000000000"}
        ELSE {"5", "-9223372036854775808"}
Floats == IF Deep THEN {VF(0, 0), VF(1, 1), VF(-5, 3), VF(12345, 4), VF(1, 20), VF(1000000, 0)} ELSE {VF(-3, 1)}
Strings == IF Deep THEN {"", "x", "ab", "<&>\"'", "abc&", Times("0123456789", 6), Times("k", 63), Times("<", 13), Times("ab", 100), Times("q", 1000)} ELSE {"", "&", "xyz", Times("w", 66)}

AppendByte == \E b \in Bytes : Do("byte", b, b)
AppendInt == \E d \in Ints : Do("int", d, d)
AppendBool == \E b \in (IF Deep THEN {"true", "false"} ELSE {"true"}) : Do("bool", b, b)
AppendFloat == \E f \in Floats : Do("float", FloatFix(f).s, FloatFix(f).s)
AppendString == \E s \in Strings : Do("string", s, Escaped(s))
AppendPlain == \E s \in (IF Deep THEN Strings ELSE {"&a"}) : Do("plain", s, s)
Clear == /\ ops' = Append(ops, <<"reset", "">>) /\ content' = "" /\ want' = Append(want, "") /\ UNCHANGED <<size, esc>>
Next == /\ Len(ops) < Length
        /\ AppendByte \/ AppendInt \/ AppendBool \/ AppendFloat \/ AppendString \/ AppendPlain \/ Clear
        /\ Len(ops') = Length => PrintT("@@" \o ToJson([size |-> size, esc |-> esc, ops |-> ops', want |-> want']))
Spec == Init /\ [][Next]_vars
\* what was written stays
Grows == [][content' # "" => SubSeq(content', 1, Len(content)) = content \/ ops'[Len(ops')][1] = "reset"]_vars
=============================================================================
