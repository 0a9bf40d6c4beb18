------------------------------- MODULE Values -------------------------------
(* Types and values of templates, their texts and conversions.

   Types   [k |-> "int" | ... | "float64" | "bool" | "string" | "iface"],
           [k |-> "ptr"|"slice", e], [k |-> "map", key, e], [k |-> "struct", name]
   Values  [k |-> "i", v] integers up to 2^30      [k |-> "big", neg, d] wider ones, by their digits
           [k |-> "f", n, e] the float n / 2^e     [k |-> "b", v \in 0..1]     [k |-> "s", v]
           [k |-> "fx", t] a float known by its text only
           [k |-> "p", a] pointer (a = 0 nil)      [k |-> "l", a, n] slice     [k |-> "m", a] map
           [k |-> "st", f] struct                  [k |-> "if", t, v] | [k |-> "nil"] interface
   a is an address of the heap, a sequence of objects
           [k |-> "val", t, v]   [k |-> "arr", t, e]   [k |-> "map", t, es: sequence of <<key, value>>]
   Texts are records [s, u]; u tells that the text is outside of what the specification decides. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

At(s, i) == SubSeq(s, i, i)
Cat(seq) == FoldLeft(LAMBDA a, b : a \o b, "", seq)
Str(n) == ToString(n)
Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Lim == 1073741824   \* 2^30
Range2(s) == {s[i] : i \in 1..Len(s)}

TX(s) == [s |-> s, u |-> FALSE]
UX == [s |-> "", u |-> TRUE]
JoinTX(seq, sep) ==   \* texts joined with sep
  [s |-> IF seq = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b.s, seq[1].s, Tail(seq)),
   u |-> \E i \in 1..Len(seq) : seq[i].u]
Wrap(l, t, r) == [s |-> l \o t.s \o r, u |-> t.u]

\* ---- characters ---------------------------------------------------------------
Ascii == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == {At(Ascii, i) : i \in 1..Len(Ascii)}
Ord == [c \in AsciiChars |-> CHOOSE i \in 1..Len(Ascii) : At(Ascii, i) = c]
High == JsonDeserialize("latin1.json")[1]   \* the bytes 128..255, as code points
HighByte == [c \in {At(High, i) : i \in 1..128} |-> 127 + CHOOSE i \in 1..128 : At(High, i) = c]
HighChars == DOMAIN HighByte
OrdOf(c) == IF c \in AsciiChars THEN Ord[c] ELSE IF c \in HighChars THEN 1000 + HighByte[c] ELSE 1000
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  CASE b = "" -> FALSE
    [] a = "" -> TRUE
    [] At(a, 1) = At(b, 1) -> StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
    [] OTHER -> OrdOf(At(a, 1)) < OrdOf(At(b, 1))

\* replaces the characters of the table, halving so that few long strings are made
RECURSIVE MapText(_, _, _, _)
MapText(s, lo, hi, table) ==
  IF lo > hi THEN "" ELSE IF lo = hi THEN (IF At(s, lo) \in DOMAIN table THEN table[At(s, lo)] ELSE At(s, lo))
  ELSE LET mid == (lo + hi) \div 2 IN MapText(s, lo, mid, table) \o MapText(s, mid + 1, hi, table)
HasAny(s, set) == \E i \in 1..Len(s) : At(s, i) \in set
Replace(s, table) == IF HasAny(s, DOMAIN table) THEN MapText(s, 1, Len(s), table) ELSE s

HtmlTable == ("&" :> "&amp;") @@ ("<" :> "&lt;") @@ (">" :> "&gt;") @@ ("\"" :> "&#34;") @@ ("'" :> "&#39;")
HtmlEscape(s) == Replace(s, HtmlTable)
JsonTable == ("\"" :> "\\\"") @@ ("\\" :> "\\\\") @@ ("\n" :> "\\n") @@ ("\r" :> "\\r") @@ ("\t" :> "\\t") @@ ("\f" :> "\\f")
             @@ ("<" :> "\\u003c") @@ (">" :> "\\u003e") @@ ("&" :> "\\u0026")
\* the length of the UTF-8 sequence that starts at byte i, 0 for none
Utf8Len(s, i) ==
  LET B(j) == IF j > Len(s) \/ At(s, j) \notin HighChars THEN 0 ELSE HighByte[At(s, j)]
      Tail_(j) == B(j) \in 128..191
      b == B(i)
  IN CASE b \in 194..223 -> IF Tail_(i + 1) THEN 2 ELSE 0
       [] b = 224 -> IF B(i + 1) \in 160..191 /\ Tail_(i + 2) THEN 3 ELSE 0
       [] b = 237 -> IF B(i + 1) \in 128..159 /\ Tail_(i + 2) THEN 3 ELSE 0
       [] b \in 225..239 -> IF Tail_(i + 1) /\ Tail_(i + 2) THEN 3 ELSE 0
       [] b = 240 -> IF B(i + 1) \in 144..191 /\ Tail_(i + 2) /\ Tail_(i + 3) THEN 4 ELSE 0
       [] b \in 241..243 -> IF Tail_(i + 1) /\ Tail_(i + 2) /\ Tail_(i + 3) THEN 4 ELSE 0
       [] b = 244 -> IF B(i + 1) \in 128..143 /\ Tail_(i + 2) /\ Tail_(i + 3) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE JsonHigh(_, _)
JsonHigh(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == At(s, i) IN
    IF c \notin HighChars THEN (IF c \in DOMAIN JsonTable THEN JsonTable[c] ELSE c) \o JsonHigh(s, i + 1)
    ELSE LET n == Utf8Len(s, i) IN
      IF n = 0 THEN "\\ufffd" \o JsonHigh(s, i + 1) ELSE SubSeq(s, i, i + n - 1) \o JsonHigh(s, i + n)
JsonString(s) == "\"" \o (IF HasAny(s, HighChars) THEN JsonHigh(s, 1) ELSE Replace(s, JsonTable)) \o "\""

\* ---- types ----------------------------------------------------------------------
SIntK == {"int", "int8", "int16", "int32", "int64"}
UIntK == {"uint", "uint8", "uint16", "uint32", "uint64"}
IntK == SIntK \cup UIntK
FloatK == {"float64", "float32"}
NumK == IntK \cup FloatK
PrimK == NumK \cup {"bool", "string"}
T(kind) == [k |-> kind]
TInt == T("int")
TStr == T("string")
TBool == T("bool")
TF64 == T("float64")
TIface == T("iface")
TUndef == T("undef")
PtrTo(t) == [k |-> "ptr", e |-> t]
SliceOf(t) == [k |-> "slice", e |-> t]

RECURSIVE TName(_)
TName(t) ==
  CASE t.k = "ptr" -> "*" \o TName(t.e)
    [] t.k = "slice" -> "[]" \o TName(t.e)
    [] t.k = "map" -> "map[" \o TName(t.key) \o "]" \o TName(t.e)
    [] t.k = "struct" -> "main." \o t.name
    [] t.k = "iface" -> "interface {}"
    [] OTHER -> t.k
TEq(a, b) == TName(a) = TName(b)
RECURSIVE Deref(_)
Deref(t) == IF t.k = "ptr" THEN Deref(t.e) ELSE t

\* ---- values -----------------------------------------------------------------------
VI(n) == [k |-> "i", v |-> n]
VB(b) == [k |-> "b", v |-> IF b THEN 1 ELSE 0]
VS(s) == [k |-> "s", v |-> s]
VP(a) == [k |-> "p", a |-> a]
VL(a, n) == [k |-> "l", a |-> a, n |-> n]
VM(a) == [k |-> "m", a |-> a]
VSt(f) == [k |-> "st", f |-> f]
VIf(t, v) == [k |-> "if", t |-> t, v |-> v]
VNil == [k |-> "nil"]
RECURSIVE VF(_, _)
VF(n, e) == IF e > 0 /\ n % 2 = 0 THEN VF(n \div 2, e - 1) ELSE [k |-> "f", n |-> n, e |-> IF n = 0 THEN 0 ELSE e]
VFx(t) == [k |-> "fx", t |-> t]

FieldIx(fs, n) == CHOOSE i \in 1..Len(fs) : fs[i].n = n
RECURSIVE Zero(_, _)
Zero(tt, t) ==
  CASE t.k \in IntK -> VI(0)
    [] t.k \in FloatK -> VF(0, 0)
    [] t.k = "bool" -> VB(FALSE)
    [] t.k = "string" -> VS("")
    [] t.k = "ptr" -> VP(0)
    [] t.k = "slice" -> VL(0, 0)
    [] t.k = "map" -> VM(0)
    [] t.k = "struct" ->
         LET fs == tt[t.name] IN VSt([n \in {fs[i].n : i \in 1..Len(fs)} |-> Zero(tt, fs[FieldIx(fs, n)].t)])
    [] OTHER -> VNil

\* the value has the shape of the type (used as an invariant of the machine)
RECURSIVE HasType(_, _, _)
HasType(tt, t, v) ==
  CASE t.k \in IntK -> v.k \in {"i", "big"}
    [] t.k \in FloatK -> v.k \in {"f", "fx"}
    [] t.k = "bool" -> v.k = "b" /\ v.v \in 0..1
    [] t.k = "string" -> v.k = "s"
    [] t.k = "ptr" -> v.k = "p"
    [] t.k = "slice" -> v.k = "l"
    [] t.k = "map" -> v.k = "m"
    [] t.k = "struct" -> v.k = "st" /\ \A i \in 1..Len(tt[t.name]) : HasType(tt, tt[t.name][i].t, v.f[tt[t.name][i].n])
    [] OTHER -> v.k \in {"nil", "if"}

\* ---- numbers ------------------------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE FracDigits(_, _)
FracDigits(r, m) == IF r = 0 THEN "" ELSE Str((r * 10) \div m) \o FracDigits((r * 10) % m, m)
Floor2(n, e) == n \div Pow2(e)   \* floor of n / 2^e

\* shortest decimal text of a float, valid when it has no more significant digits than maxSig
FloatParts(v) == LET n == Abs(v.n) m == Pow2(v.e) IN [i |-> Str(n \div m), f |-> IF v.e > 26 THEN "" ELSE FracDigits(n % m, m)]
FloatText(v, maxSig) ==
  IF v.k = "fx" THEN (IF maxSig < 15 THEN UX ELSE TX(v.t))
  ELSE LET p == FloatParts(v) IN
    IF v.e > 26 \/ Len(p.i) + Len(p.f) > maxSig THEN UX
    ELSE TX((IF v.n < 0 THEN "-" ELSE "") \o p.i \o (IF p.f = "" THEN "" ELSE "." \o p.f))
\* always without an exponent
SigLen(p) == IF p.i = "0" THEN LET nz == {i \in 1..Len(p.f) : At(p.f, i) # "0"} IN
                               IF nz = {} THEN 0 ELSE Len(p.f) + 1 - CHOOSE i \in nz : \A j \in nz : i <= j
             ELSE Len(p.i) + Len(p.f)
FloatFix(v) == IF v.k = "f" /\ v.e <= 26 /\ SigLen(FloatParts(v)) <= 15 THEN FloatText(v, 60) ELSE FloatText(v, 15)
FloatDump(v) == LET t == FloatText(v, 30) IN
  IF v.k = "fx" THEN UX ELSE IF v.e = 0 THEN Wrap("", t, ".0") ELSE t
SigDigits(t) == IF t.k = "float32" THEN 6 ELSE 15
IntText(v) == IF v.k = "big" THEN (IF v.neg = 1 THEN "-" ELSE "") \o v.d ELSE Str(v.v)

Width(kind) == CASE kind \in {"int8", "uint8"} -> 8 [] kind \in {"int16", "uint16"} -> 16 [] kind \in {"int32", "uint32"} -> 32 [] OTHER -> 64
\* an integer that a kind cannot hold
Overflows(v, kind) ==
  IF v.k = "big" THEN \/ v.neg = 1 /\ kind \in UIntK
                      \/ Width(kind) < 32
                      \/ Width(kind) = 32 /\ LET max == IF kind \in UIntK THEN "4294967295" ELSE IF v.neg = 1 THEN "2147483648" ELSE "2147483647" IN
                                              Len(v.d) > 10 \/ (Len(v.d) = 10 /\ StrLess(max, v.d))
  ELSE (kind \in UIntK /\ v.v < 0) \/ (Width(kind) \in {8, 16} /\ LET m == Pow2(Width(kind)) IN IF kind \in SIntK THEN v.v >= m \div 2 \/ v.v < -(m \div 2) ELSE v.v >= m)
\* conversion between integer kinds; wide results are not decided: returns <<ok, value>>
WrapInt(v, kind) ==
  CASE v.k = "big" -> IF Width(kind) = 64 /\ (kind \in SIntK \/ v.neg = 0) THEN <<TRUE, v>> ELSE <<FALSE, v>>
    [] Width(kind) \in {8, 16} ->
         LET m == Pow2(Width(kind)) r == v.v % m IN
         <<TRUE, VI(IF kind \in SIntK /\ r >= m \div 2 THEN r - m ELSE r)>>
    [] kind \in UIntK -> IF v.v < 0 THEN <<FALSE, v>> ELSE <<TRUE, v>>
    [] OTHER -> <<TRUE, v>>
\* integer of a float, truncated
FloatInt(v) == IF v.k = "fx" THEN <<FALSE, v>> ELSE <<TRUE, VI(TDiv(v.n, Pow2(v.e)))>>

IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE i \in 0..9 : Str(i) = c]
RECURSIVE DecVal(_, _)
DecVal(s, acc) == IF s = "" THEN acc ELSE DecVal(SubSeq(s, 2, Len(s)), acc * 10 + DigitVal[At(s, 1)])
\* strconv.Atoi: [st |-> "ok"|"err"|"unspec", v, msg]
Atoi(s) ==
  LET signed == s # "" /\ At(s, 1) \in {"-", "+"}
      d == IF signed THEN SubSeq(s, 2, Len(s)) ELSE s IN
  IF d = "" \/ \E i \in 1..Len(d) : ~IsDigit(At(d, i))
  THEN [st |-> "err", v |-> VI(0), msg |-> IF HasAny(s, {"\"", "\\", "\n", "\t", "\r", "\f"}) \/ \E i \in 1..Len(s) : At(s, i) \notin AsciiChars
                                           THEN "*" ELSE "strconv.Atoi: parsing \"" \o s \o "\": invalid syntax"]
  ELSE IF Len(d) > 9 THEN [st |-> "unspec", v |-> VI(0), msg |-> ""]
  ELSE LET n == DecVal(d, 0) IN [st |-> "ok", v |-> VI(IF signed /\ At(s, 1) = "-" THEN -n ELSE n), msg |-> ""]

\* ---- texts of values, S holds the heap (S.heap) and the types table (S.tt) --------------
SortTX(seq, Key(_)) == SortSeq(seq, LAMBDA a, b : StrLess(Key(a), Key(b)))

RECURSIVE Json(_, _, _)
Json(S, t, v) ==
  CASE t.k \in IntK -> TX(IntText(v))
    [] t.k \in FloatK -> IF v.k = "f" /\ v.n # 0 /\ FloatParts(v).i = "0" /\ Len(FloatParts(v).f) > 6 THEN UX
                         ELSE FloatText(v, SigDigits(t))
    [] t.k = "bool" -> TX(IF v.v = 1 THEN "true" ELSE "false")
    [] t.k = "string" -> TX(JsonString(v.v))
    [] t.k = "ptr" -> IF v.a = 0 THEN TX("null") ELSE Json(S, t.e, S.heap[v.a].v)
    [] t.k = "slice" -> IF v.a = 0 THEN TX("null") ELSE IF t.e.k = "uint8" THEN UX
                        ELSE Wrap("[", JoinTX([i \in 1..v.n |-> Json(S, t.e, S.heap[v.a].e[i])], ","), "]")
    [] t.k = "map" -> IF t.key.k \notin IntK \cup {"string"} THEN UX
                      ELSE IF v.a = 0 THEN TX("null")
                      ELSE LET es == S.heap[v.a].es
                               ks == [i \in 1..Len(es) |-> <<IF t.key.k = "string" THEN es[i][1].v ELSE IntText(es[i][1]), i>>]
                               so == SortTX(ks, LAMBDA x : x[1]) IN
                           Wrap("{", JoinTX([i \in 1..Len(so) |-> Wrap(JsonString(so[i][1]) \o ":", Json(S, t.e, es[so[i][2]][2]), "")], ","), "}")
    [] t.k = "struct" -> LET fs == S.tt[t.name] IN
                         IF \E i \in 1..Len(fs) : fs[i].emb = 1 THEN UX
                         ELSE Wrap("{", JoinTX([i \in 1..Len(fs) |-> Wrap("\"" \o fs[i].n \o "\":", Json(S, fs[i].t, v.f[fs[i].n]), "")], ","), "}")
    [] OTHER -> IF v.k = "nil" THEN TX("null") ELSE Json(S, v.t, v.v)

\* fmt %v of a value held by an interface
RECURSIVE FmtV(_, _, _)
FmtV(S, t, v) ==
  CASE t.k \in IntK -> TX(IntText(v))
    [] t.k \in FloatK -> IF v.k = "f" /\ v.n # 0 /\ FloatParts(v).i = "0" /\ Len(FloatParts(v).f) > 4 THEN UX
                         ELSE FloatText(v, SigDigits(t))
    [] t.k = "bool" -> TX(IF v.v = 1 THEN "true" ELSE "false")
    [] t.k = "string" -> TX(v.v)
    [] t.k = "ptr" -> IF v.a = 0 THEN TX("<nil>") ELSE UX
    [] t.k = "slice" -> IF v.a = 0 THEN TX("[]") ELSE Wrap("[", JoinTX([i \in 1..v.n |-> FmtV(S, t.e, S.heap[v.a].e[i])], " "), "]")
    [] t.k = "map" -> IF v.a = 0 THEN TX("map[]") ELSE IF t.key.k \notin IntK \cup {"string"} /\ Len(S.heap[v.a].es) > 1 THEN UX
                      ELSE IF t.key.k \in IntK /\ \E i \in 1..Len(S.heap[v.a].es) : S.heap[v.a].es[i][1].k # "i" THEN UX
                      ELSE LET es == S.heap[v.a].es
                               ks == [i \in 1..Len(es) |-> <<FmtV(S, t.key, es[i][1]).s, i, es[i][1]>>]
                               so == IF t.key.k \in IntK THEN SortSeq(ks, LAMBDA a, b : a[3].v < b[3].v) ELSE SortTX(ks, LAMBDA x : x[1]) IN
                           Wrap("map[", JoinTX([i \in 1..Len(so) |-> Wrap(so[i][1] \o ":", FmtV(S, t.e, es[so[i][2]][2]), "")], " "), "]")
    [] t.k = "struct" -> LET fs == S.tt[t.name] IN Wrap("{", JoinTX([i \in 1..Len(fs) |-> FmtV(S, fs[i].t, v.f[fs[i].n])], " "), "}")
    [] OTHER -> IF v.k = "nil" THEN TX("<nil>") ELSE FmtV(S, v.t, v.v)

\* text of a reference to a value of the type
Render(S, t, v) ==
  CASE t.k = "int" -> TX(IntText(v))
    [] t.k = "string" -> TX(v.v)
    [] t.k = "bool" -> TX(IF v.v = 1 THEN "true" ELSE "false")
    [] t.k = "float64" -> FloatFix(v)
    [] t.k = "iface" -> IF v.k = "nil" THEN TX("<nil>") ELSE IF v.t.k = "float64" THEN FloatFix(v.v)
                        ELSE IF v.t.k = "ptr" THEN UX ELSE FmtV(S, v.t, v.v)
    [] OTHER -> Json(S, t, v)

\* canonical dump, the same as the one of the harness
RECURSIVE Dump(_, _, _)
Dump(S, t, v) ==
  CASE t.k \in IntK -> TX(IntText(v))
    [] t.k \in FloatK -> FloatDump(v)
    [] t.k = "bool" -> TX(IF v.v = 1 THEN "true" ELSE "false")
    [] t.k = "string" -> TX("'" \o v.v \o "'")
    [] t.k = "ptr" -> IF v.a = 0 THEN TX("nil") ELSE Wrap("&", Dump(S, t.e, S.heap[v.a].v), "")
    [] t.k = "slice" -> IF v.a = 0 THEN TX("nil") ELSE Wrap("[", JoinTX([i \in 1..v.n |-> Dump(S, t.e, S.heap[v.a].e[i])], ","), "]")
    [] t.k = "map" -> IF v.a = 0 THEN TX("nil")
                      ELSE LET es == S.heap[v.a].es
                               ds == [i \in 1..Len(es) |-> Wrap(Dump(S, t.key, es[i][1]).s \o ":", Dump(S, t.e, es[i][2]), "")]
                               so == SortTX(ds, LAMBDA x : x.s) IN
                           Wrap("map" \o Str(Len(es)) \o "[", JoinTX(so, ","), "]")
    [] t.k = "struct" -> LET fs == S.tt[t.name] IN
                         Wrap("{", JoinTX([i \in 1..Len(fs) |-> Wrap(fs[i].n \o ":", Dump(S, fs[i].t, v.f[fs[i].n]), "")], ","), "}")
    [] OTHER -> IF v.k = "nil" THEN TX("nil") ELSE Dump(S, v.t, v.v)

\* ---- truth of a condition -------------------------------------------------------------------
TruthyPrim(t, v) ==
  CASE t.k \in IntK -> v.k = "big" \/ v.v # 0
    [] t.k \in FloatK -> v.k = "fx" \/ v.n # 0
    [] t.k = "bool" -> v.v = 1
    [] OTHER -> v.v # ""
Truthy(S, t, v) ==
  CASE t.k \in PrimK -> TruthyPrim(t, v)
    [] t.k = "ptr" -> v.a # 0 /\ (t.e.k \in PrimK => TruthyPrim(t.e, S.heap[v.a].v))
    [] t.k = "slice" -> v.a # 0 /\ v.n > 0
    [] t.k = "map" -> v.a # 0
    [] t.k = "struct" -> TRUE
    [] OTHER -> v.k # "nil"

\* ---- conversion of an assigned value -----------------------------------------------------------
\* whether the conversion exists: "ok", "cerr" (rejected when compiled) or "unspec"
ConvKind(to, from) ==
  LET f == Deref(from) IN
  CASE TEq(to, from) -> "ok"
    [] to.k = "ptr" -> IF Deref(to).k \notin PrimK \/ f.k \notin PrimK
                       THEN (IF Deref(to).k = f.k THEN "unspec" ELSE IF Deref(to).k = "bool" THEN "unspec" ELSE "cerr")
                       ELSE IF f.k \in {"string", "bool"} /\ Deref(to).k \in FloatK THEN "cerr" ELSE "unspec"
    [] from.k = "ptr" /\ from.e.k = "ptr" -> "unspec"
    [] f.k \in IntK -> IF to.k \in PrimK THEN "ok" ELSE "cerr"
    [] f.k \in FloatK -> IF to.k \in PrimK THEN "ok" ELSE "cerr"
    [] f.k \in {"string", "bool"} -> IF to.k \in IntK \cup {"bool", "string"} THEN "ok" ELSE "cerr"
    [] to.k = "bool" -> IF from.k = "ptr" \/ from.k = "map" THEN "ok" ELSE "unspec"
    [] OTHER -> "cerr"

CR(st, v, msg) == [st |-> st, v |-> v, msg |-> msg]
\* converted value: st "ok", "skip" (nil pointer: nothing is assigned), "err" with msg, "unspec"
ConvPrim(to, from, v) ==
  CASE from.k = to.k -> CR("ok", v, "")
    [] from.k \in IntK /\ to.k \in IntK -> LET w == WrapInt(v, to.k) IN CR(IF w[1] /\ ~(v.k = "big" /\ (from.k \in UIntK) # (to.k \in UIntK)) THEN "ok" ELSE "unspec", w[2], "")
    [] from.k \in IntK /\ to.k = "float64" -> IF v.k = "big" THEN CR("unspec", v, "") ELSE CR("ok", VF(v.v, 0), "")
    [] from.k \in IntK /\ to.k = "float32" -> IF v.k = "big" \/ Abs(v.v) > 16777216 THEN CR("unspec", v, "") ELSE CR("ok", VF(v.v, 0), "")
    [] from.k \in FloatK /\ to.k \in IntK ->
         LET i == FloatInt(v) w == WrapInt(i[2], to.k) IN
         IF ~i[1] THEN CR("unspec", v, "")
         ELSE IF ~w[1] \/ w[2].v # i[2].v THEN CR("unspec", v, "") ELSE CR("ok", i[2], "")
    [] from.k \in FloatK /\ to.k \in FloatK -> IF v.k = "fx" \/ Abs(v.n) > 16777216 THEN CR("unspec", v, "") ELSE CR("ok", v, "")
    [] to.k = "bool" -> CR("ok", VB(TruthyPrim(from, v)), "")
    [] from.k \in UIntK /\ to.k = "string" /\ v.k = "big" /\ Len(v.d) > 18 -> CR("unspec", v, "")
    [] from.k \in IntK /\ to.k = "string" -> CR("ok", VS(IntText(v)), "")
    [] from.k \in FloatK /\ to.k = "string" -> LET x == FloatText(v, 6) IN IF x.u \/ v.k = "fx" THEN CR("unspec", v, "") ELSE CR("ok", VS(x.s), "")
    [] from.k = "bool" /\ to.k = "string" -> CR("ok", VS(IF v.v = 1 THEN "true" ELSE "false"), "")
    [] from.k = "bool" /\ to.k \in IntK -> CR("ok", VI(v.v), "")
    [] from.k = "string" /\ to.k \in IntK ->
         LET a == Atoi(v.v) w == WrapInt(a.v, to.k) IN
         IF a.st # "ok" THEN CR(a.st, v, a.msg) ELSE IF w[1] THEN CR("ok", w[2], "") ELSE CR("unspec", v, "")
    [] OTHER -> CR("unspec", v, "")
Convert(S, to, from, v) ==
  CASE TEq(to, from) -> CR("ok", v, "")
    [] ConvKind(to, from) # "ok" -> CR("unspec", v, "")
    [] from.k = "ptr" /\ from.e.k \in PrimK ->
         IF v.a = 0 THEN CR("skip", v, "") ELSE ConvPrim(to, from.e, S.heap[v.a].v)
    [] from.k \in PrimK -> ConvPrim(to, from, v)
    [] to.k = "bool" -> CR("ok", VB(v.a # 0), "")
    [] OTHER -> CR("unspec", v, "")
=============================================================================
