-------------------------------- MODULE Funcs -------------------------------
(* The functions and methods the harness registers: signatures and the rule giving their results and events. *)
EXTENDS Builtins

LOCAL I == TInt
LOCAL S == TStr
LOCAL B == TBool
LOCAL F == TF64
LOCAL U8 == T("uint8")
LOCAL Sig(in, out) == [in |-> in, var |-> FALSE, out |-> out, err |-> FALSE]
LOCAL SigE(in, out) == [in |-> in, var |-> FALSE, out |-> out, err |-> TRUE]
LOCAL SigV(in, out) == [in |-> in, var |-> TRUE, out |-> out, err |-> FALSE]
LOCAL Struct(n) == [k |-> "struct", name |-> n]

FuncSig ==
     "pI" :> Sig(<<I>>, I) @@ "pS" :> Sig(<<S>>, S) @@ "pB" :> Sig(<<B>>, B) @@ "pF" :> Sig(<<F>>, F)
  @@ "fssb" :> Sig(<<S, S>>, B) @@ "fsss" :> Sig(<<S, S>>, S) @@ "fsi" :> Sig(<<S>>, I) @@ "fssi" :> Sig(<<S, S>>, I)
  @@ "fsb" :> Sig(<<S>>, B) @@ "fssii" :> Sig(<<S, S, I>>, I) @@ "fsssb" :> Sig(<<S, S, S>>, B) @@ "fssss" :> Sig(<<S, S, S>>, S)
  @@ "fssl" :> Sig(<<S, S>>, SliceOf(S)) @@ "fssib" :> Sig(<<S, S, I>>, B) @@ "fsis" :> Sig(<<S, I>>, S) @@ "fsiis" :> Sig(<<S, I, I>>, S)
  @@ "fIib" :> Sig(<<SliceOf(I), I>>, B) @@ "fBbb" :> Sig(<<SliceOf(B), B>>, B) @@ "fFfb" :> Sig(<<SliceOf(F), F>>, B) @@ "fSsb" :> Sig(<<SliceOf(S), S>>, B)
  @@ "fIIb" :> Sig(<<SliceOf(I), SliceOf(I)>>, B) @@ "fBBb" :> Sig(<<SliceOf(B), SliceOf(B)>>, B)
  @@ "fFFb" :> Sig(<<SliceOf(F), SliceOf(F)>>, B) @@ "fSSb" :> Sig(<<SliceOf(S), SliceOf(S)>>, B)
  @@ "fIii" :> Sig(<<SliceOf(I), I>>, I) @@ "fBib" :> Sig(<<SliceOf(B), I>>, B) @@ "fFif" :> Sig(<<SliceOf(F), I>>, F) @@ "fSis" :> Sig(<<SliceOf(S), I>>, S)
  @@ "fIb" :> Sig(<<SliceOf(I)>>, B) @@ "fBb" :> Sig(<<SliceOf(B)>>, B) @@ "fFb" :> Sig(<<SliceOf(F)>>, B) @@ "fSb" :> Sig(<<SliceOf(S)>>, B)
  @@ "fIi" :> Sig(<<SliceOf(I)>>, I) @@ "fBi" :> Sig(<<SliceOf(B)>>, I) @@ "fFi" :> Sig(<<SliceOf(F)>>, I) @@ "fSi" :> Sig(<<SliceOf(S)>>, I)
  @@ "fUub" :> Sig(<<SliceOf(U8), U8>>, B) @@ "fUUb" :> Sig(<<SliceOf(U8), SliceOf(U8)>>, B) @@ "fUiu" :> Sig(<<SliceOf(U8), I>>, U8) @@ "fUb" :> Sig(<<SliceOf(U8)>>, B)
  @@ "fss" :> Sig(<<S>>, S) @@ "fii" :> Sig(<<I>>, I) @@ "fiii" :> Sig(<<I, I>>, I) @@ "ffff" :> Sig(<<F, F>>, F) @@ "ff" :> Sig(<<F>>, F)
  @@ "fbs" :> Sig(<<B>>, S) @@ "fis" :> Sig(<<I>>, S) @@ "ffs" :> Sig(<<F>>, S)
  @@ "fisbf" :> Sig(<<I, S, B, F>>, S) @@ "fisbfi" :> Sig(<<I, S, B, F, I>>, S)
  @@ "fi8i64s" :> Sig(<<T("int8"), T("int64")>>, S) @@ "fu16f32s" :> Sig(<<T("uint16"), T("float32")>>, S)
  @@ "fvar" :> SigV(<<S, I>>, S) @@ "fany" :> Sig(<<TIface>>, S) @@ "fany2" :> Sig(<<TIface, TIface>>, S)
  @@ "eI" :> SigE(<<I>>, I) @@ "eS" :> SigE(<<S>>, S) @@ "eB" :> SigE(<<B, S>>, B)
  @@ "fmk" :> Sig(<<I>>, PtrTo(Struct("Leaf"))) @@ "fmv" :> Sig(<<I>>, Struct("Leaf")) @@ "fli" :> Sig(<<I>>, SliceOf(I))
  @@ "fz" :> Sig(<<>>, S)
FuncNames == DOMAIN FuncSig

MethodSig ==
     "Sub.Val" :> Sig(<<I>>, I) @@ "Sub.Ptr" :> Sig(<<I>>, I)
  @@ "Leaf.Join" :> Sig(<<S, I>>, S) @@ "Leaf.PJoin" :> Sig(<<S>>, S) @@ "Leaf.Get" :> Sig(<<>>, Struct("Sub"))
  @@ "Leaf.Fail" :> SigE(<<I>>, I) @@ "Leaf.Six" :> Sig(<<I, I, I, I, I>>, S) @@ "Leaf.Var" :> SigV(<<I>>, S)
  @@ "Node.Hop" :> Sig(<<I>>, PtrTo(Struct("Node")))
PtrMethods == {"Sub.Ptr", "Leaf.PJoin", "Leaf.Fail", "Node.Hop"}
\* method of the type, "" when its method set has none of the name
MethodOf(t, n) ==
  CASE t.k = "struct" -> IF t.name \o "." \o n \in DOMAIN MethodSig \ PtrMethods THEN t.name \o "." \o n ELSE ""
    [] t.k = "ptr" /\ t.e.k = "struct" -> IF t.e.name \o "." \o n \in DOMAIN MethodSig THEN t.e.name \o "." \o n ELSE ""
    [] OTHER -> ""

SigOf(n) == IF n \in FuncNames THEN FuncSig[n] ELSE IF n \in DOMAIN NsSig THEN NsSig[n] ELSE IF n \in DOMAIN KindSig THEN KindSig[n] ELSE MethodSig[n]
IsMethod(n) == n \in DOMAIN MethodSig

\* ---- results --------------------------------------------------------------------
Weight(t, v) ==
  CASE v.k = "i" -> v.v
    [] v.k = "f" -> (v.n * 2) \div Pow2(v.e)
    [] v.k = "b" -> v.v
    [] v.k = "s" -> Len(v.v)
    [] v.k = "l" -> v.n
    [] OTHER -> 7
WeightKnown(t, v) == CASE v.k = "i" -> Abs(v.v) < 1000000 [] v.k = "f" -> Abs(v.n) < 1000000 /\ v.e < 20
                       [] v.k \in {"big", "fx", "m", "if", "nil"} -> FALSE [] OTHER -> TRUE
RECURSIVE SumW(_, _, _)
SumW(ts, vs, i) == IF i > Len(vs) THEN 0 ELSE (i + 1) * Weight(ts[i], vs[i]) + SumW(ts, vs, i + 1)

JoinDumps(Sx, ts, vs, sep) == JoinTX([i \in 1..Len(vs) |-> Dump(Sx, ts[i], vs[i])], sep)

FR(Sx, v, msg, ev, u) == [S |-> Sx, v |-> v, msg |-> msg, ev |-> ev, u |-> u]
NewObj(Sx, o) == [S |-> [Sx EXCEPT !.heap = Append(@, o)], a |-> Len(Sx.heap) + 1]

(* Result of calling n with converted arguments vs of types ts. For methods, vs starts with the recorded fields of the
   receiver. Returns the new S (heap), value, failure message ("" none), text of the event. *)
CallResult(Sx, n, ts, vs, recv) ==
  LET dumps == JoinDumps(Sx, ts, vs, ",")
      ev == Wrap(n \o "(", dumps, ")")
      sig == SigOf(n)
      known == \A i \in 1..Len(vs) : WeightKnown(ts[i], vs[i])
      sum == IF known THEN SumW(ts, vs, 1) ELSE 0
      arg(i) == vs[i]
      failText(v) == IF v.k = "s" THEN v.v ELSE IntText(v)
  IN
  CASE n \in {"pI", "pS", "pB", "pF"} -> FR(Sx, vs[1], "", ev, FALSE)
    [] n \in {"eI", "eS"} -> LET m == failText(vs[1]) IN FR(Sx, vs[1], IF (n = "eI" /\ m # "" /\ At(m, 1) = "-") \/ (n = "eS" /\ Len(m) >= 3 /\ SubSeq(m, 1, 3) = "bad") THEN n \o " failed: " \o m ELSE "", ev, FALSE)
    [] n = "eB" -> LET m == vs[2].v IN FR(Sx, vs[1], IF Len(m) >= 3 /\ SubSeq(m, 1, 3) = "bad" THEN "eB failed: " \o m ELSE "", ev, FALSE)
    [] n = "Leaf.Fail" -> LET m == IntText(vs[2]) IN FR(Sx, vs[2], IF At(m, 1) = "-" THEN "Leaf.Fail failed: " \o m ELSE "", ev, FALSE)
    [] n = "fz" -> FR(Sx, VS("fz"), "", ev, FALSE)
    [] n = "fli" -> IF vs[1].k # "i" THEN FR(Sx, VL(0, 0), "", ev, TRUE)
                    ELSE LET len == IF vs[1].v < 0 THEN 0 ELSE IF vs[1].v > 50 THEN 50 ELSE vs[1].v
                             o == NewObj(Sx, [k |-> "arr", t |-> TInt, e |-> [i \in 1..len |-> VI((i - 1) * 10)]]) IN
                         FR(o.S, VL(o.a, len), "", ev, FALSE)
    [] n = "fmk" \/ n = "fmv" ->
         IF vs[1].k # "i" \/ Abs(vs[1].v) > 1000000 THEN FR(Sx, VP(0), "", ev, TRUE)
         ELSE IF n = "fmk" /\ vs[1].v < 0 THEN FR(Sx, VP(0), "", ev, FALSE)
         ELSE LET sub == NewObj(Sx, [k |-> "val", t |-> Struct("Sub"), v |-> VSt([X |-> VI(vs[1].v + 1), Y |-> VS("y")])])
                  z == Zero(Sx.tt, Struct("Leaf"))
                  leaf == [z EXCEPT !.f.A = vs[1], !.f.B = VS(IF n = "fmk" THEN "mk" ELSE "mv"), !.f.Sub = VP(sub.a)] IN
              IF n = "fmv" THEN FR(sub.S, leaf, "", ev, FALSE)
              ELSE LET o == NewObj(sub.S, [k |-> "val", t |-> Struct("Leaf"), v |-> leaf]) IN FR(o.S, VP(o.a), "", ev, FALSE)
    [] n = "Leaf.Get" -> LET p == recv.f.Sub IN
         FR(Sx, IF p.a = 0 THEN Zero(Sx.tt, Struct("Sub")) ELSE Sx.heap[p.a].v, "", ev, FALSE)
    [] n = "Node.Hop" -> FR(Sx, recv.f.Next, "", ev, FALSE)
    [] sig.out.k = "int" -> FR(Sx, VI(sum), "", ev, ~known)
    [] sig.out.k = "uint8" -> FR(Sx, VI(sum % 100), "", ev, ~known)
    [] sig.out.k = "bool" -> FR(Sx, VB(sum % 2 # 0), "", ev, ~known)
    [] sig.out.k = "float64" -> FR(Sx, VF(sum, 1), "", ev, ~known)
    [] sig.out.k = "string" -> LET d == JoinDumps(Sx, ts, vs, "|") IN FR(Sx, VS(n \o "<" \o d.s \o ">"), "", ev, d.u)
    [] OTHER -> \* []string of the dumps
         LET o == NewObj(Sx, [k |-> "arr", t |-> TStr, e |-> [i \in 1..Len(vs) |-> VS(Dump(Sx, ts[i], vs[i]).s)]]) IN
         FR(o.S, VL(o.a, Len(vs)), "", ev, dumps.u)

\* fields of the receiver recorded by the method, before its arguments
RecvArgs(n, recv) ==
  CASE n \in {"Sub.Val", "Sub.Ptr"} -> <<<<TInt, recv.f.X>>>>
    [] n = "Leaf.Join" -> <<<<TInt, recv.f.A>>, <<TStr, recv.f.B>>>>
    [] n = "Node.Hop" -> <<<<TInt, recv.f.ID>>>>
    [] OTHER -> <<<<TInt, recv.f.A>>>>
=============================================================================
