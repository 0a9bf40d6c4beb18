------------------------------- MODULE Builtins ------------------------------
(* The functions of the namespaces and the functions of maps and slices: signatures and results. Strings are of ASCII
   characters here, the result of anything else is left open. *)
EXTENDS Values

LOCAL I == TInt
LOCAL S == TStr
LOCAL B == TBool
LOCAL F == TF64
LOCAL A == TIface
LOCAL Sig(in, out) == [in |-> in, var |-> FALSE, out |-> out, err |-> FALSE]
LOCAL SigE(in, out) == [in |-> in, var |-> FALSE, out |-> out, err |-> TRUE]

NsIds == {"strings", "math", "strconv", "slices", "types", "errors", "time", "maps", "json"}
NsSig ==
     "strings.ToLower" :> Sig(<<S>>, S) @@ "strings.ToUpper" :> Sig(<<S>>, S) @@ "strings.ReplaceAll" :> Sig(<<S, S, S>>, S)
  @@ "strings.HasSuffix" :> Sig(<<S, S>>, B) @@ "strings.HasPrefix" :> Sig(<<S, S>>, B) @@ "strings.Index" :> Sig(<<S, S>>, I)
  @@ "strings.LastIndex" :> Sig(<<S, S>>, I) @@ "strings.Fields" :> Sig(<<S>>, SliceOf(S)) @@ "strings.Split" :> Sig(<<S, S>>, SliceOf(S))
  @@ "strings.TrimSpace" :> Sig(<<S>>, S) @@ "strings.Trim" :> Sig(<<S, S>>, S) @@ "strings.Length" :> Sig(<<S>>, I) @@ "strings.In" :> Sig(<<SliceOf(S), S>>, B)
  @@ "math.Round" :> Sig(<<F>>, F) @@ "math.Ceil" :> Sig(<<F>>, F) @@ "math.Floor" :> Sig(<<F>>, F) @@ "math.Abs" :> Sig(<<F>>, F)
  @@ "math.Sqrt" :> Sig(<<F>>, F) @@ "math.Pow" :> Sig(<<F, F>>, F) @@ "math.Min" :> Sig(<<F, F>>, F) @@ "math.Max" :> Sig(<<F, F>>, F)
  @@ "strconv.Itoa" :> Sig(<<I>>, S) @@ "strconv.Atoi" :> SigE(<<S>>, I) @@ "strconv.ParseFloat" :> SigE(<<S>>, F) @@ "strconv.ParseBool" :> SigE(<<S>>, B)
  @@ "strconv.ParseUint" :> SigE(<<S>>, T("uint64")) @@ "strconv.AsFloat" :> SigE(<<A>>, F)
  @@ "slices.Length" :> Sig(<<A>>, I) @@ "slices.StringAt" :> SigE(<<A, I>>, S) @@ "slices.IntAt" :> SigE(<<A, I>>, I) @@ "slices.BoolAt" :> SigE(<<A, I>>, B)
  @@ "slices.FloatAt" :> SigE(<<A, I>>, F) @@ "slices.ReverseStrings" :> SigE(<<A>>, SliceOf(S)) @@ "slices.ReverseInts" :> SigE(<<A>>, SliceOf(I)) @@ "slices.ReverseFloats" :> SigE(<<A>>, SliceOf(F))
  @@ "types.IsInt" :> Sig(<<A>>, B) @@ "types.IsFloat64" :> Sig(<<A>>, B) @@ "types.IsString" :> Sig(<<A>>, B) @@ "types.IsBool" :> Sig(<<A>>, B)
  @@ "errors.Raise" :> SigE(<<S>>, S) @@ "errors.RegisterError" :> SigE(<<S>>, S) @@ "errors.AssertInt" :> SigE(<<A>>, B) @@ "errors.AssertFloat" :> SigE(<<A>>, B)
  @@ "errors.AssertString" :> SigE(<<A>>, B) @@ "errors.AssertBool" :> SigE(<<A>>, B) @@ "errors.AssertWithMessage" :> SigE(<<B, S>>, B)
  @@ "maps.Has" :> SigE(<<A, A>>, B) @@ "maps.Get" :> SigE(<<A, A>>, A) @@ "maps.GetInt" :> SigE(<<A, A>>, I) @@ "maps.GetFloat" :> SigE(<<A, A>>, F)
  @@ "maps.GetBool" :> SigE(<<A, A>>, B) @@ "maps.GetString" :> SigE(<<A, A>>, S)
  @@ "json.Marshal" :> SigE(<<A>>, S)
KindSig == "HasKey" :> SigE(<<A>>, B) @@ "IndexBy" :> SigE(<<S>>, A)
BuiltinNames == DOMAIN NsSig \cup DOMAIN KindSig

IsAscii(s) == \A i \in 1..Len(s) : At(s, i) \in AsciiChars
Plainly(s) == IsAscii(s) /\ ~HasAny(s, {"\"", "\\", "\n", "\t", "\r", "\f"})
DynT(x) == IF x.k = "if" THEN x.t ELSE T("<nil>")
DynName(x) == IF x.k = "if" THEN TName(x.t) ELSE "<nil>"

\* ---- strings ---------------------------------------------------------------------
Occ(s, sub) == {i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub}
FirstOcc(s, sub) == LET o == Occ(s, sub) IN IF o = {} THEN 0 ELSE CHOOSE i \in o : \A j \in o : i <= j
LastOcc(s, sub) == LET o == Occ(s, sub) IN IF o = {} THEN 0 ELSE CHOOSE i \in o : \A j \in o : i >= j
RECURSIVE SplitBy(_, _)
SplitBy(s, sep) ==
  LET i == FirstOcc(s, sep) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitBy(SubSeq(s, i + Len(sep), Len(s)), sep)
SplitS(s, sep) == IF sep = "" THEN [i \in 1..Len(s) |-> At(s, i)] ELSE SplitBy(s, sep)
RECURSIVE JoinS(_, _)
JoinS(seq, sep) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1] ELSE seq[1] \o sep \o JoinS(Tail(seq), sep)
ReplAll(s, old, new) == IF old = "" THEN new \o Cat([i \in 1..Len(s) |-> At(s, i) \o new]) ELSE JoinS(SplitBy(s, old), new)
RECURSIVE TrimLeft(_, _)
TrimLeft(s, set) == IF s # "" /\ At(s, 1) \in set THEN TrimLeft(SubSeq(s, 2, Len(s)), set) ELSE s
RECURSIVE TrimRight(_, _)
TrimRight(s, set) == IF s # "" /\ At(s, Len(s)) \in set THEN TrimRight(SubSeq(s, 1, Len(s) - 1), set) ELSE s
TrimSet(s, set) == TrimRight(TrimLeft(s, set), set)
Chars(s) == {At(s, i) : i \in 1..Len(s)}
White == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE FieldsOf(_, _)
FieldsOf(s, cur) ==
  IF s = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF At(s, 1) \in White THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o FieldsOf(SubSeq(s, 2, Len(s)), "")
  ELSE FieldsOf(SubSeq(s, 2, Len(s)), cur \o At(s, 1))
LowerA == "abcdefghijklmnopqrstuvwxyz"
UpperA == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpTable == [c \in Chars(LowerA) |-> At(UpperA, FirstOcc(LowerA, c))]
LowTable == [c \in Chars(UpperA) |-> At(LowerA, FirstOcc(UpperA, c))]

\* ---- numbers in texts: [st: ok | err | unspec, v, msg] ------------------------------
PR(st, v, msg) == [st |-> st, v |-> v, msg |-> msg]
SyntaxError(f, s) == PR("err", VI(0), IF Plainly(s) THEN "strconv." \o f \o ": parsing \"" \o s \o "\": invalid syntax" ELSE "*")
Digits(s) == \A i \in 1..Len(s) : IsDigit(At(s, i))
RECURSIVE Pow5(_)
Pow5(n) == IF n = 0 THEN 1 ELSE 5 * Pow5(n - 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
ParseFloat(s) ==
  LET signed == s # "" /\ At(s, 1) \in {"-", "+"}
      d == IF signed THEN SubSeq(s, 2, Len(s)) ELSE s
      dot == FirstOcc(d, ".")
      ip == IF dot = 0 THEN d ELSE SubSeq(d, 1, dot - 1)
      fp == IF dot = 0 THEN "" ELSE SubSeq(d, dot + 1, Len(d)) IN
  IF \E c \in Chars(s) : c \in Chars("eEpPxX_") \/ (c \in Chars("iInN")) THEN PR("unspec", VF(0, 0), "")
  ELSE IF ip \o fp = "" \/ ~Digits(ip) \/ ~Digits(fp) THEN [SyntaxError("ParseFloat", s) EXCEPT !.v = VF(0, 0)]
  ELSE IF Len(ip) + Len(fp) > 9 THEN PR("unspec", VF(0, 0), "")
  ELSE LET f == StripZeros(fp) n == DecVal(ip \o f, 0) neg == signed /\ At(s, 1) = "-" IN
    IF neg /\ n = 0 THEN PR("unspec", VF(0, 0), "")   \* -0
    ELSE IF n % Pow5(Len(f)) = 0 THEN PR("ok", VF((IF neg THEN -1 ELSE 1) * (n \div Pow5(Len(f))), Len(f)), "")
    ELSE PR("ok", VFx((IF neg THEN "-" ELSE "") \o Str(DecVal(ip, 0)) \o "." \o f), "")
ParseBool(s) ==
  IF s \in {"1", "t", "T", "TRUE", "true", "True"} THEN PR("ok", VB(TRUE), "")
  ELSE IF s \in {"0", "f", "F", "FALSE", "false", "False"} THEN PR("ok", VB(FALSE), "")
  ELSE [SyntaxError("ParseBool", s) EXCEPT !.v = VB(FALSE)]
ParseUint(s) ==
  IF s = "" \/ ~Digits(s) THEN SyntaxError("ParseUint", s)
  ELSE IF Len(s) > 9 THEN PR("unspec", VI(0), "") ELSE PR("ok", VI(DecVal(s, 0)), "")

\* ---- floats n / 2^e ------------------------------------------------------------------
FNum(f) == f.k = "f" /\ f.e < 20 /\ Abs(f.n) < 1000000000
SignedZero(f, r) == r = 0 /\ f.n < 0
FloorF(f) == f.n \div Pow2(f.e)
CeilF(f) == -((-f.n) \div Pow2(f.e))
RoundF(f) == LET a == (2 * (Abs(f.n) \div 2) + (Abs(f.n) % 2)) IN  \* half away from zero
             (IF f.n < 0 THEN -1 ELSE 1) * (IF f.e = 0 THEN a ELSE (a + Pow2(f.e - 1)) \div Pow2(f.e))
LessF(a, b) == LET m == IF a.e > b.e THEN a.e ELSE b.e IN a.n * Pow2(m - a.e) < b.n * Pow2(m - b.e)
SmallF(f) == FNum(f) /\ f.e <= 8 /\ Abs(f.n) < 4000000
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)

\* ---- maps -------------------------------------------------------------------------------
EntryAt(S1, m, key) == {i \in 1..Len(S1.heap[m.a].es) : S1.heap[m.a].es[i][1] = key}
\* normalized key: [st: ok | nil | unspec, t, v]
NormKey(S1, x) ==
  IF x.k = "nil" THEN [st |-> "nil", t |-> TIface, v |-> x]
  ELSE IF x.t.k = "ptr" THEN
    (IF x.t.e.k \notin {"int", "int16", "int32", "int64", "float64", "float32", "string"} THEN [st |-> "unspec", t |-> x.t, v |-> x]
     ELSE IF x.v.a = 0 THEN [st |-> "nil", t |-> x.t, v |-> x]
     ELSE LET y == S1.heap[x.v.a].v IN
       IF x.t.e.k = "string" THEN [st |-> "ok", t |-> TStr, v |-> y]
       ELSE IF x.t.e.k \in FloatK THEN (IF FloatInt(y)[1] THEN [st |-> "ok", t |-> TInt, v |-> FloatInt(y)[2]] ELSE [st |-> "unspec", t |-> x.t, v |-> x])
       ELSE [st |-> "ok", t |-> TInt, v |-> y])
  ELSE IF x.t.k \in {"int16", "int32", "int64"} THEN [st |-> "ok", t |-> TInt, v |-> x.v]
  ELSE IF x.t.k \in PrimK THEN [st |-> "ok", t |-> x.t, v |-> x.v]
  ELSE [st |-> "unspec", t |-> x.t, v |-> x]
\* key k [t, v] in a map with keys of type kt: [st: ok | err | unspec, v, msg]
KeyAs(kt, k) ==
  IF k.t.k \notin PrimK THEN PR("unspec", VNil, "")
  ELSE IF kt.k = "iface" THEN PR("ok", VIf(k.t, k.v), "")
  ELSE IF TEq(kt, k.t) THEN PR("ok", k.v, "")
  ELSE IF k.v.k \in {"big", "fx"} THEN PR("unspec", VNil, "")
  ELSE IF kt.k \in NumK /\ k.t.k \in NumK THEN
    (IF kt.k \in FloatK THEN PR("ok", IF k.v.k = "i" THEN VF(k.v.v, 0) ELSE k.v, "")
     ELSE LET i == IF k.v.k = "f" THEN FloatInt(k.v)[2] ELSE k.v IN
          IF ~Overflows(i, kt.k) THEN PR("ok", i, "")
          ELSE IF k.v.k = "f" THEN PR("unspec", VNil, "")
          ELSE PR("err", VNil, "can't use " \o IntText(i) \o " as a map key of type " \o TName(kt)))
  ELSE PR("err", VNil, "can't use " \o TName(k.t) \o " as a map key of type " \o TName(kt))

\* value of the map (an interface) under the key: [st: ok | err | none | unspec, v (interface), msg]
MapValue(S1, m, k) ==
  IF m.k = "nil" THEN PR("none", VNil, "")
  ELSE IF m.t.k # "map" THEN PR("err", VNil, "incorrect arg type, wanted Map, got " \o DynName(m))
  ELSE LET x == KeyAs(m.t.key, k) IN
    IF x.st # "ok" THEN x
    ELSE IF m.v.a = 0 THEN PR("none", VNil, "")
    ELSE LET f == EntryAt(S1, m.v, x.v) IN
      IF f = {} THEN PR("none", VNil, "")
      ELSE LET e == S1.heap[m.v.a].es[CHOOSE i \in f : TRUE][2] IN PR("ok", IF m.t.e.k = "iface" THEN e ELSE VIf(m.t.e, e), "")

\* ---- results ------------------------------------------------------------------------------
BR(S1, v, msg, u) == [S |-> S1, v |-> v, msg |-> msg, ev |-> TX(""), u |-> u]
Parsed(S1, r) == BR(S1, r.v, r.msg, r.st = "unspec")
NewList(S1, t, seq) == [S |-> [S1 EXCEPT !.heap = Append(@, [k |-> "arr", t |-> t, e |-> seq])], v |-> VL(Len(S1.heap) + 1, Len(seq))]
List(S1, t, seq) == LET l == NewList(S1, t, seq) IN BR(l.S, l.v, "", FALSE)
Elems(S1, v) == IF v.a = 0 THEN <<>> ELSE SubSeq(S1.heap[v.a].e, 1, v.n)
OutOfRange(S1, i, n, v) == BR([S1 EXCEPT !.pan = IF S1.pm = 1 THEN "caught" ELSE "panic", !.pmsg = "runtime error: index out of range [" \o Str(i) \o "]" \o (IF i < 0 THEN "" ELSE " with length " \o Str(n))], v, "", FALSE)

ElemAt(S1, t, zero, x, i) ==
  IF x.k = "nil" \/ ~TEq(DynT(x), SliceOf(t)) THEN BR(S1, zero, "unexpected slice type " \o DynName(x), FALSE)
  ELSE IF i.k # "i" THEN BR(S1, zero, "", TRUE)
  ELSE IF i.v < 0 \/ i.v >= x.v.n THEN OutOfRange(S1, i.v, x.v.n, zero)
  ELSE BR(S1, S1.heap[x.v.a].e[i.v + 1], "", FALSE)
Reversed(S1, t, x, name) ==
  IF x.k = "nil" \/ ~TEq(DynT(x), SliceOf(t)) THEN
    LET l == NewList(S1, t, <<>>) IN BR(l.S, l.v, "unexpected type, exptected []" \o name \o " but got " \o DynName(x), FALSE)
  ELSE LET e == Elems(S1, x.v) IN List(S1, t, [i \in 1..Len(e) |-> e[Len(e) + 1 - i]])
AssertT(S1, x, t, name) == IF x.k = "if" /\ TEq(x.t, t) THEN BR(S1, VB(TRUE), "", FALSE) ELSE BR(S1, VB(FALSE), "expected to got " \o name \o " but got " \o DynName(x), FALSE)
GetAs(S1, m, key, t, zero) ==
  IF key.k = "nil" THEN BR(S1, zero, "unexpected map value type, watned " \o TName(t) \o " got <nil>", FALSE)
  ELSE LET r == MapValue(S1, m, [t |-> key.t, v |-> key.v]) IN
    IF r.st = "unspec" THEN BR(S1, zero, "", TRUE)
    ELSE IF r.st = "err" THEN BR(S1, zero, r.msg, FALSE)
    ELSE IF r.v.k = "if" /\ TEq(r.v.t, t) THEN BR(S1, r.v.v, "", FALSE)
    ELSE BR(S1, zero, "unexpected map value type, watned " \o TName(t) \o " got " \o DynName(r.v), FALSE)

\* field of the struct type by its name or one of its further names, 0 when there is none
FieldOf(tt, name, field) ==
  LET fs == tt[name]
      byName == {i \in 1..Len(fs) : fs[i].n = field}
      byTag == {i \in 1..Len(fs) : \E j \in 1..Len(fs[i].names) : fs[i].names[j] = field} IN
  IF byName # {} THEN CHOOSE i \in byName : TRUE
  ELSE IF byTag # {} THEN CHOOSE i \in byTag : \A j \in byTag : i <= j ELSE 0
RECURSIVE PutAll(_, _, _, _)   \* entries of IndexBy, a later one replaces an earlier one with the same key
PutAll(es, ks, items, i) ==
  IF i > Len(ks) THEN es
  ELSE LET f == {j \in 1..Len(es) : es[j][1] = ks[i]} IN
    PutAll(IF f = {} THEN Append(es, <<ks[i], items[i]>>) ELSE [es EXCEPT ![CHOOSE j \in f : TRUE] = <<ks[i], items[i]>>], ks, items, i + 1)
IndexBy(S1, t, v, field) ==
  LET st == Deref(t.e) IN
  IF st.k # "struct" THEN BR(S1, VNil, "", TRUE)
  ELSE IF \E i \in 1..Len(S1.tt[st.name]) : S1.tt[st.name][i].emb = 1 THEN BR(S1, VNil, "", TRUE)
  ELSE LET fi == FieldOf(S1.tt, st.name, field) IN
    IF fi = 0 THEN BR(S1, VNil, IF Plainly(field) THEN "not found field " \o field \o " at struct " \o TName(st) ELSE "*", FALSE)
    ELSE LET e == Elems(S1, v)
             f == S1.tt[st.name][fi]
             nils == t.e.k = "ptr" /\ \E i \in 1..Len(e) : e[i].a = 0 IN
      IF nils \/ (t.e.k = "ptr" /\ t.e.e.k = "ptr") THEN BR(S1, VNil, "", TRUE)
      ELSE LET ks == [i \in 1..Len(e) |-> NormKey(S1, VIf(f.t, (IF t.e.k = "ptr" THEN S1.heap[e[i].a].v ELSE e[i]).f[f.n]))] IN
        IF \E i \in 1..Len(ks) : ks[i].st = "unspec" \/ (ks[i].st = "ok" /\ ks[i].v.k \in {"big", "fx"}) THEN BR(S1, VNil, "", TRUE)
        ELSE LET mt == [k |-> "map", key |-> TIface, e |-> t.e]
                 es == PutAll(<<>>, [i \in 1..Len(ks) |-> IF ks[i].st = "nil" THEN VNil ELSE VIf(ks[i].t, ks[i].v)], e, 1) IN
          BR([S1 EXCEPT !.heap = Append(@, [k |-> "map", t |-> mt, es |-> es])], VM(Len(S1.heap) + 1), "", FALSE)

(* result of the function n of arguments a, for HasKey and IndexBy recv is the map or slice as an interface *)
BuiltinResult(S1, n, a, recv) ==
  LET str(i) == a[i].v
      allAscii == \A i \in 1..Len(a) : a[i].k # "s" \/ IsAscii(a[i].v)
      fl(v) == BR(S1, v, "", FALSE)
      int(f, r) == BR(S1, VF(r, 0), "", SignedZero(f, r)) IN
  IF ~allAscii /\ n # "json.Marshal" THEN BR(S1, VNil, "", TRUE)
  ELSE CASE n = "strings.ToLower" -> fl(VS(Replace(str(1), LowTable)))
    [] n = "strings.ToUpper" -> fl(VS(Replace(str(1), UpTable)))
    [] n = "strings.ReplaceAll" -> fl(VS(ReplAll(str(1), str(2), str(3))))
    [] n = "strings.HasSuffix" -> fl(VB(Len(str(2)) <= Len(str(1)) /\ SubSeq(str(1), Len(str(1)) - Len(str(2)) + 1, Len(str(1))) = str(2)))
    [] n = "strings.HasPrefix" -> fl(VB(Len(str(2)) <= Len(str(1)) /\ SubSeq(str(1), 1, Len(str(2))) = str(2)))
    [] n = "strings.Index" -> fl(VI(FirstOcc(str(1), str(2)) - 1))
    [] n = "strings.LastIndex" -> fl(VI(LastOcc(str(1), str(2)) - 1))
    [] n = "strings.Fields" -> LET p == FieldsOf(str(1), "") IN List(S1, TStr, [i \in 1..Len(p) |-> VS(p[i])])
    [] n = "strings.Split" -> LET p == SplitS(str(1), str(2)) IN List(S1, TStr, [i \in 1..Len(p) |-> VS(p[i])])
    [] n = "strings.TrimSpace" -> fl(VS(TrimSet(str(1), White)))
    [] n = "strings.Trim" -> fl(VS(TrimSet(str(1), Chars(str(2)))))
    [] n = "strings.Length" -> fl(VI(Len(str(1))))
    [] n = "strings.In" -> fl(VB(\E i \in 1..a[1].n : S1.heap[a[1].a].e[i].v = str(2)))
    [] n \in {"math.Round", "math.Ceil", "math.Floor", "math.Abs", "math.Sqrt"} ->
         LET f == a[1] IN
         IF ~FNum(f) THEN BR(S1, VF(0, 0), "", TRUE)
         ELSE CASE n = "math.Round" -> int(f, RoundF(f))
                [] n = "math.Ceil" -> int(f, CeilF(f))
                [] n = "math.Floor" -> int(f, FloorF(f))
                [] n = "math.Abs" -> fl(VF(Abs(f.n), f.e))
                [] OTHER -> LET m == IF f.e % 2 = 0 THEN f.n ELSE 2 * f.n
                                e == IF f.e % 2 = 0 THEN f.e ELSE f.e + 1
                                roots == IF f.n < 0 \/ m > 1000000 THEN {} ELSE {r \in 0..1000 : r * r = m} IN
                            IF roots = {} THEN BR(S1, VF(0, 0), "", TRUE) ELSE fl(VF(CHOOSE r \in roots : TRUE, e \div 2))
    [] n = "math.Pow" ->
         IF ~SmallF(a[1]) \/ ~SmallF(a[2]) \/ a[2].e # 0 \/ a[2].n < 0 \/ a[2].n > 4 \/ Abs(a[1].n) > 100 THEN BR(S1, VF(0, 0), "", TRUE)
         ELSE fl(VF(IPow(a[1].n, a[2].n), a[1].e * a[2].n))
    [] n \in {"math.Min", "math.Max"} ->
         IF ~SmallF(a[1]) \/ ~SmallF(a[2]) THEN BR(S1, VF(0, 0), "", TRUE)
         ELSE fl(IF LessF(a[1], a[2]) = (n = "math.Min") THEN a[1] ELSE a[2])
    [] n = "strconv.Itoa" -> fl(VS(IntText(a[1])))
    [] n = "strconv.Atoi" -> Parsed(S1, Atoi(str(1)))
    [] n = "strconv.ParseFloat" -> Parsed(S1, ParseFloat(str(1)))
    [] n = "strconv.ParseBool" -> Parsed(S1, ParseBool(str(1)))
    [] n = "strconv.ParseUint" -> Parsed(S1, ParseUint(str(1)))
    [] n = "strconv.AsFloat" ->
         IF a[1].k = "nil" THEN fl(VF(0, 0))
         ELSE CASE a[1].t.k = "float64" -> fl(a[1].v)
                [] a[1].t.k = "int" -> IF a[1].v.k = "i" THEN fl(VF(a[1].v.v, 0)) ELSE BR(S1, VF(0, 0), "", TRUE)
                [] a[1].t.k = "string" -> IF IsAscii(a[1].v.v) THEN Parsed(S1, ParseFloat(a[1].v.v)) ELSE BR(S1, VF(0, 0), "", TRUE)
                [] a[1].t.k \in PrimK -> LET x == FmtV(S1, a[1].t, a[1].v) IN BR(S1, VF(0, 0), "unconvertable value " \o x.s \o " to float64", x.u)
                [] OTHER -> BR(S1, VF(0, 0), "*", FALSE)
    [] n = "slices.Length" ->
         IF a[1].k = "nil" THEN BR(S1, VI(0), "", TRUE)
         ELSE CASE a[1].t.k = "slice" -> fl(VI(a[1].v.n))
                [] a[1].t.k = "map" -> fl(VI(IF a[1].v.a = 0 THEN 0 ELSE Len(S1.heap[a[1].v.a].es)))
                [] a[1].t.k = "string" -> BR(S1, VI(Len(a[1].v.v)), "", ~IsAscii(a[1].v.v))
                [] OTHER -> BR(S1, VI(0), "", TRUE)
    [] n = "slices.StringAt" -> ElemAt(S1, TStr, VS(""), a[1], a[2])
    [] n = "slices.IntAt" -> ElemAt(S1, TInt, VI(0), a[1], a[2])
    [] n = "slices.BoolAt" -> ElemAt(S1, TBool, VB(FALSE), a[1], a[2])
    [] n = "slices.FloatAt" -> ElemAt(S1, TF64, VF(0, 0), a[1], a[2])
    [] n = "slices.ReverseStrings" -> Reversed(S1, TStr, a[1], "string")
    [] n = "slices.ReverseFloats" -> Reversed(S1, TF64, a[1], "float64")
    [] n = "slices.ReverseInts" -> Reversed(S1, TInt, a[1], "float64")
    [] n = "types.IsInt" -> fl(VB(DynT(a[1]).k = "int"))
    [] n = "types.IsFloat64" -> fl(VB(DynT(a[1]).k = "float64"))
    [] n = "types.IsString" -> fl(VB(DynT(a[1]).k = "string"))
    [] n = "types.IsBool" -> fl(VB(DynT(a[1]).k = "bool"))
    [] n \in {"errors.Raise", "errors.RegisterError"} -> BR(S1, VS(""), str(1), str(1) = "")
    [] n = "errors.AssertInt" -> AssertT(S1, a[1], TInt, "int")
    [] n = "errors.AssertFloat" -> AssertT(S1, a[1], TF64, "float")
    [] n = "errors.AssertString" -> AssertT(S1, a[1], TStr, "string")
    [] n = "errors.AssertBool" -> AssertT(S1, a[1], TBool, "bool")
    [] n = "errors.AssertWithMessage" -> IF a[1].v = 1 THEN fl(VB(TRUE)) ELSE BR(S1, VB(FALSE), str(2), str(2) = "")
    [] n = "maps.Has" \/ n = "maps.Get" ->
         IF a[2].k = "nil" THEN fl(IF n = "maps.Has" THEN VB(FALSE) ELSE VNil)
         ELSE LET r == MapValue(S1, a[1], [t |-> a[2].t, v |-> a[2].v])
                  no == IF n = "maps.Has" THEN VB(FALSE) ELSE VNil IN
           IF r.st = "unspec" THEN BR(S1, no, "", TRUE)
           ELSE IF r.st = "err" THEN BR(S1, no, r.msg, FALSE)
           ELSE IF r.st = "none" THEN fl(no) ELSE fl(IF n = "maps.Has" THEN VB(TRUE) ELSE r.v)
    [] n = "maps.GetInt" -> GetAs(S1, a[1], a[2], TInt, VI(0))
    [] n = "maps.GetFloat" -> GetAs(S1, a[1], a[2], TF64, VF(0, 0))
    [] n = "maps.GetBool" -> GetAs(S1, a[1], a[2], TBool, VB(FALSE))
    [] n = "maps.GetString" -> GetAs(S1, a[1], a[2], TStr, VS(""))
    [] n = "json.Marshal" -> LET x == IF a[1].k = "nil" THEN TX("null") ELSE Json(S1, a[1].t, a[1].v) IN BR(S1, VS(x.s), "", x.u)
    [] n = "HasKey" ->
         LET k == NormKey(S1, a[1]) IN
         IF k.st = "nil" THEN fl(VB(FALSE))
         ELSE IF k.st = "unspec" THEN BR(S1, VB(FALSE), "", TRUE)
         ELSE LET r == MapValue(S1, recv, k) IN
           IF r.st = "unspec" THEN BR(S1, VB(FALSE), "", TRUE)
           ELSE IF r.st = "err" THEN BR(S1, VB(FALSE), r.msg, FALSE) ELSE fl(VB(r.st = "ok"))
    [] OTHER -> IndexBy(S1, recv.t, recv.v, str(1))
=============================================================================
