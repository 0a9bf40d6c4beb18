-------------------------------- MODULE Eval --------------------------------
(* Evaluation of typed expressions.

   S is [tt, heap, vars: root -> value, ev: events, errs: messages of recorded failures, u: reason why the
   specification does not decide the rest ("" when it does), pan: "" | "abort" (a failure under panic-on-error) | "caught" (a
   panic of Go under panic-on-error) | "panic", pmsg, pm: panic-on-error]. Every operator returns [S, v, ...] and does nothing more once Stop(S). *)
EXTENDS Elab

Stop(S) == S.u # "" \/ S.pan # ""
Un(S, why) == IF Stop(S) THEN S ELSE [S EXCEPT !.u = why]
AddErr(S, msg) == IF S.pm = 1 THEN [S EXCEPT !.errs = Append(@, msg), !.pan = "abort"] ELSE [S EXCEPT !.errs = Append(@, msg)]
Panic(S, msg) == [S EXCEPT !.pan = "panic", !.pmsg = msg]
R(S, v) == [S |-> S, v |-> v]

\* ---- operators --------------------------------------------------------------------
BO(v) == [v |-> v, u |-> ""]
BU(why) == [v |-> VI(0), u |-> why]
IntOp(op, a, b) ==
  IF a.k = "big" \/ b.k = "big" THEN
    (IF op \in {"==", "!="} THEN BO(VB((a = b) = (op = "==")))
     ELSE IF op \in OrdOps /\ (a.k # "big" \/ b.k # "big") THEN
       LET less == IF a.k = "big" THEN a.neg = 1 ELSE b.neg = 0 IN BO(VB(less = (op \in {"<", "<="})))
     ELSE BU("wide integers"))
  ELSE LET x == a.v y == b.v IN
    CASE op = "==" -> BO(VB(x = y)) [] op = "!=" -> BO(VB(x # y))
      [] op = "<" -> BO(VB(x < y)) [] op = "<=" -> BO(VB(x <= y)) [] op = ">" -> BO(VB(x > y)) [] op = ">=" -> BO(VB(x >= y))
      [] op = "/" -> IF y = 0 THEN BU("division by zero") ELSE BO(VI(TDiv(x, y)))
      [] op = "*" -> IF x # 0 /\ Abs(y) > Lim \div Abs(x) THEN BU("overflow") ELSE BO(VI(x * y))
      [] OTHER -> LET r == IF op = "+" THEN x + y ELSE x - y IN IF Abs(r) >= Lim THEN BU("overflow") ELSE BO(VI(r))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Log2(_)   \* -1 when not a power of two
Log2(n) == IF n = 1 THEN 0 ELSE IF n = 0 \/ n % 2 = 1 THEN -1 ELSE LET l == Log2(n \div 2) IN IF l < 0 THEN l ELSE l + 1
Small(n, e) == e <= 24 /\ (n = 0 \/ Pow2(e) <= Lim \div Abs(n))   \* n * 2^e stays in range
FloatOp(op, a, b) ==
  IF a.k = "fx" \/ b.k = "fx" THEN BU("unusual float")
  ELSE LET m == IF a.e > b.e THEN a.e ELSE b.e
           inRange == Small(a.n, m - a.e) /\ Small(b.n, m - b.e)
           x == a.n * Pow2(m - a.e)
           y == b.n * Pow2(m - b.e) IN
    IF op = "*" THEN
      (IF a.n # 0 /\ Abs(b.n) > Lim \div Abs(a.n) THEN BU("overflow")
       ELSE IF a.n * b.n = 0 /\ (a.n < 0 \/ b.n < 0) THEN BU("negative zero")
       ELSE IF a.e + b.e > 28 THEN BU("small float") ELSE BO(VF(a.n * b.n, a.e + b.e)))
    ELSE IF ~inRange THEN BU("overflow")
    ELSE CASE op = "==" -> BO(VB(x = y)) [] op = "!=" -> BO(VB(x # y))
      [] op = "<" -> BO(VB(x < y)) [] op = "<=" -> BO(VB(x <= y)) [] op = ">" -> BO(VB(x > y)) [] op = ">=" -> BO(VB(x >= y))
      [] op = "+" -> IF Abs(x + y) >= Lim THEN BU("overflow") ELSE BO(VF(x + y, m))
      [] op = "-" -> IF Abs(x - y) >= Lim THEN BU("overflow") ELSE BO(VF(x - y, m))
      [] OTHER ->
           IF y = 0 THEN (IF x > 0 THEN BO(VFx("+Inf")) ELSE IF x < 0 THEN BO(VFx("-Inf")) ELSE BO(VFx("NaN")))
           ELSE IF x = 0 THEN (IF y < 0 THEN BU("negative zero") ELSE BO(VF(0, 0)))
           ELSE LET g == Gcd(Abs(x), Abs(y)) d == Abs(y) \div g l == Log2(d)
                    n == IF y < 0 THEN -(x \div g) ELSE x \div g IN
                IF l < 0 \/ l > 28 THEN BU("inexact division") ELSE BO(VF(n, l))
StrOp(op, a, b) ==
  CASE op = "+" -> BO(VS(a.v \o b.v)) [] op = "==" -> BO(VB(a.v = b.v)) [] OTHER -> BO(VB(a.v # b.v))
BoolOp(op, a, b) ==
  CASE op = "&&" -> BO(VB(a.v = 1 /\ b.v = 1)) [] op = "||" -> BO(VB(a.v = 1 \/ b.v = 1))
    [] op = "==" -> BO(VB(a.v = b.v)) [] OTHER -> BO(VB(a.v # b.v))
Apply(op, k, a, b) ==
  CASE k \in IntK -> IntOp(op, a, b) [] k \in FloatK -> FloatOp(op, a, b) [] k = "string" -> StrOp(op, a, b) [] OTHER -> BoolOp(op, a, b)
\* a nil operand equals nil only and orders below everything else
NilOp(op, anil, bnil) ==
  CASE op = "==" -> anil /\ bnil [] op = "!=" -> ~(anil /\ bnil)
    [] op = "<" -> anil /\ ~bnil [] op = "<=" -> anil [] op = ">" -> ~anil /\ bnil [] OTHER -> bnil

\* operand converted to the unified type: [st: ok | skip (nil) | unspec, v]
UnifyOperand(S, rt, ptr, t, v) ==
  IF t.k = "ptr" /\ TEq(t.e, rt) THEN (IF v.a = 0 THEN CR("skip", v, "") ELSE CR("ok", S.heap[v.a].v, ""))
  ELSE Convert(S, rt, t, v)

\* ---- containers ------------------------------------------------------------------------
\* key to look for in a map, after the key type: [st: ok | err | nil | unspec, v, msg]
MapKeyOf(S, kt, t, v) ==
  LET pt == t.k = "ptr"
      et == IF pt THEN t.e ELSE IF t.k = "iface" /\ v.k = "if" THEN v.t ELSE t
      isnil == (pt /\ v.a = 0) \/ v.k = "nil"
      x == IF pt /\ v.a # 0 THEN S.heap[v.a].v ELSE IF v.k = "if" THEN v.v ELSE v
      norm == IF pt \/ et.k \in {"int16", "int32", "int64"} THEN
                (IF et.k \in {"int", "int16", "int32", "int64", "float64", "float32"} THEN TInt ELSE et) ELSE et
      y == IF pt /\ et.k \in FloatK THEN FloatInt(x)[2] ELSE x IN
  IF pt /\ et.k \notin {"int", "int16", "int32", "int64", "float64", "float32", "string"} THEN CR("unspec", v, "")
  ELSE IF isnil THEN CR("nil", v, "")
  ELSE IF et.k \notin PrimK \/ y.k = "fx" \/ (y.k = "big" /\ kt.k \notin IntK) THEN CR("unspec", v, "")
  ELSE IF kt.k = "iface" THEN CR("ok", VIf(norm, y), "")
  ELSE IF TEq(norm, kt) THEN CR("ok", y, "")
  ELSE IF norm.k \in NumK /\ kt.k \in NumK THEN
    (IF kt.k \in FloatK THEN (IF y.k = "i" THEN CR("ok", VF(y.v, 0), "") ELSE CR("ok", y, ""))
     ELSE LET i == IF y.k = "f" THEN FloatInt(y)[2] ELSE y IN
          IF ~Overflows(i, kt.k) THEN CR("ok", i, "")
          ELSE IF y.k = "f" \/ (y.k = "big" /\ kt.k \in SIntK /\ Width(kt.k) = 64) THEN CR("unspec", v, "")
          ELSE CR("err", v, "can't use " \o IntText(i) \o " as a map key of type " \o TName(kt)))
  ELSE CR("err", v, "can't use " \o TName(norm) \o " as a map key of type " \o TName(kt))
EntryOf(es, key) == {i \in 1..Len(es) : es[i][1] = key}

\* ---- expressions -----------------------------------------------------------------------------
RECURSIVE Eval(_, _)
RECURSIVE EvalArgs(_, _, _)
RECURSIVE Walk(_, _, _, _, _)
RECURSIVE CallIt(_, _, _, _)

\* place a value is at: none, a variable, the object or element of an array, with the fields below it
Nowhere == [k |-> "none", root |-> "", a |-> 0, i |-> 0, fs |-> <<>>]
InVar(root) == [k |-> "var", root |-> root, a |-> 0, i |-> 0, fs |-> <<>>]
InObj(a) == [k |-> "obj", root |-> "", a |-> a, i |-> 0, fs |-> <<>>]
InElem(a, i) == [k |-> "elem", root |-> "", a |-> a, i |-> i, fs |-> <<>>]
Under(p, n) == [p EXCEPT !.fs = Append(@, n)]

W(S, v, p, isnil) == [S |-> S, v |-> v, p |-> p, isnil |-> isnil]
RECURSIVE Follow(_, _, _, _)   \* fields of structs, following pointers
Follow(S, v, p, fs) ==
  IF fs = <<>> THEN W(S, v, p, FALSE)
  ELSE IF v.k = "p" THEN (IF v.a = 0 THEN W(S, v, Nowhere, TRUE) ELSE Follow(S, S.heap[v.a].v, InObj(v.a), fs))
  ELSE Follow(S, v.f[fs[1]], Under(p, fs[1]), Tail(fs))

EvalArgs(S, args, done) ==
  IF Len(done) = Len(args) \/ Stop(S) THEN R(S, done)
  ELSE LET r == Eval(S, args[Len(done) + 1]) IN EvalArgs(r.S, args, Append(done, r.v))

(* Call of function or method n with evaluated arguments: numbers are converted to the type of the parameter,
   an invalid call is a failure and has no result. *)
CallIt(S, n, targs, recv) ==
  LET sig == SigOf(n)
      required == IF sig.var THEN Len(sig.in) - 1 ELSE Len(sig.in)
      isMethod == IsMethod(n)
      short == IF n \notin FuncNames \cup DOMAIN KindSig THEN SubSeq(n, CHOOSE i \in 1..Len(n) : At(n, i) = "." /\ \A j \in 1..(i-1) : At(n, j) # ".", Len(n)) ELSE n
      fname == IF n \notin FuncNames \cup DOMAIN KindSig THEN SubSeq(short, 2, Len(short)) ELSE n
      nargs == Len(targs)
      limit == Len(sig.in) + 1   \* superfluous arguments are found before any is evaluated
  IN
  IF ~sig.var /\ nargs > Len(sig.in)
  THEN [S |-> AddErr(S, "*"), v |-> VNil, isnil |-> TRUE]
  ELSE
    LET ev == EvalArgs(S, targs, <<>>)
        S1 == ev.S IN
    IF Stop(S1) THEN [S |-> S1, v |-> VNil, isnil |-> TRUE]
    ELSE IF nargs < required THEN [S |-> AddErr(S1, "not enough arguments in call to " \o fname), v |-> VNil, isnil |-> TRUE]
    ELSE
      LET ptype(i) == IF i <= required THEN sig.in[i] ELSE sig.in[Len(sig.in)]
          \* dynamic type and value of the argument
          at == [i \in 1..nargs |-> IF targs[i].t.k = "iface" /\ ev.v[i].k = "if" THEN ev.v[i].t ELSE targs[i].t]
          av == [i \in 1..nargs |-> IF targs[i].t.k = "iface" /\ ev.v[i].k = "if" THEN ev.v[i].v ELSE ev.v[i]]
          cv == [i \in 1..nargs |->
                  IF TEq(at[i], ptype(i)) THEN CR("ok", av[i], "")
                  ELSE IF ptype(i).k = "iface" THEN CR("ok", IF at[i].k = "iface" THEN VNil ELSE VIf(at[i], av[i]), "")
                  ELSE IF at[i].k \in NumK /\ ptype(i).k \in NumK THEN
                    (IF at[i].k \in IntK /\ ptype(i).k \in IntK
                     THEN LET w == WrapInt(av[i], ptype(i).k) IN
                          IF w[1] /\ ~(w[2].k = "big" /\ (at[i].k \in UIntK) # (ptype(i).k \in UIntK)) THEN CR("ok", w[2], "") ELSE CR("unspec", av[i], "")
                     ELSE ConvPrim(ptype(i), at[i], av[i]))
                  ELSE CR("err", av[i], "can't use " \o TName(at[i]) \o " as " \o TName(ptype(i)) \o " in call to " \o fname)]
          firstErr == {i \in 1..nargs : cv[i].st = "err"}
      IN
      IF \E i \in 1..nargs : cv[i].st = "unspec" THEN [S |-> Un(S1, "argument conversion"), v |-> VNil, isnil |-> TRUE]
      ELSE IF firstErr # {} THEN
        LET m == CHOOSE i \in firstErr : \A j \in firstErr : i <= j IN
        [S |-> AddErr(S1, cv[m].msg), v |-> VNil, isnil |-> TRUE]
      ELSE
        LET ra == IF isMethod THEN RecvArgs(n, recv) ELSE <<>>
            ts == [i \in 1..Len(ra) |-> ra[i][1]] \o [i \in 1..nargs |-> ptype(i)]
            vs == [i \in 1..Len(ra) |-> ra[i][2]] \o [i \in 1..nargs |-> cv[i].v]
            builtin == n \in BuiltinNames
            r == IF builtin THEN BuiltinResult(S1, n, vs, recv) ELSE CallResult(S1, n, ts, vs, recv)
            S2 == IF builtin THEN r.S ELSE [r.S EXCEPT !.ev = Append(@, r.ev)] IN
        IF r.u \/ r.ev.u THEN [S |-> Un(S2, "result of a call"), v |-> VNil, isnil |-> TRUE]
        ELSE [S |-> IF r.msg = "" THEN S2 ELSE AddErr(S2, r.msg), v |-> r.v, isnil |-> FALSE]

\* steps k.. of a path whose value so far is v, at place p; isnil when the path ended at a nil
Walk(S, v, p, st, k) ==
  IF k > Len(st) \/ Stop(S) THEN W(S, v, p, FALSE)
  ELSE LET s == st[k] IN
    IF s.s = "f" THEN
      LET r == Follow(S, v, p, s.fs) IN
      IF r.isnil THEN r ELSE Walk(S, r.v, r.p, st, k + 1)
    ELSE IF s.s = "i" THEN
      LET isIf == v.k \in {"if", "nil"}
          c == IF v.k = "if" THEN v.v ELSE v
          ct == IF v.k = "if" THEN v.t ELSE TUndef IN
      IF c.k = "l" THEN
        LET n == c.n
            r == Eval(S, s.e) IN
        IF Stop(r.S) THEN W(r.S, v, p, TRUE)
        ELSE LET x == Convert(r.S, TInt, s.e.t, r.v) IN
          IF s.e.t.k = "ptr" /\ s.e.t.e.k \notin PrimK THEN W(Un(r.S, "index type"), v, p, TRUE)
          ELSE IF x.st = "unspec" \/ x.v.k = "big" THEN W(Un(r.S, "index conversion"), v, p, TRUE)
          ELSE IF x.st = "skip" THEN W(r.S, v, Nowhere, TRUE)
          ELSE IF x.st = "err" THEN W(AddErr(r.S, x.msg), v, Nowhere, TRUE)
          ELSE IF x.v.v < 0 \/ x.v.v >= n THEN
            W(Panic(r.S, "index out of range [" \o Str(x.v.v) \o "] with length " \o Str(n)), v, Nowhere, TRUE)
          ELSE LET e == r.S.heap[c.a].e[x.v.v + 1]
                   item == IF isIf /\ ct.e.k # "iface" THEN VIf(ct.e, e) ELSE e IN
               Walk(r.S, item, IF isIf THEN Nowhere ELSE InElem(c.a, x.v.v + 1), st, k + 1)
      ELSE IF c.k = "m" THEN
        LET r == Eval(S, s.e) IN
        IF Stop(r.S) THEN W(r.S, v, p, TRUE)
        ELSE IF c.a = 0 THEN   \* nothing to find, but an impossible key is reported
          LET mt == IF isIf THEN ct ELSE s.ct
              x == MapKeyOf(r.S, mt.key, s.e.t, r.v)
              S1 == IF x.st = "err" THEN AddErr(r.S, x.msg) ELSE IF x.st = "unspec" THEN Un(r.S, "map key") ELSE r.S IN
          IF x.st # "unspec" /\ mt.e.k = "ptr" /\ k < Len(st) /\ st[k + 1].s = "c" THEN Walk(S1, VP(0), Nowhere, st, k + 1)
          ELSE W(S1, v, Nowhere, TRUE)
        ELSE LET m == r.S.heap[c.a]
                 x == MapKeyOf(r.S, m.t.key, s.e.t, r.v)
                 found == IF x.st = "ok" THEN EntryOf(m.es, x.v) ELSE {}
                 S1 == IF x.st = "err" THEN AddErr(r.S, x.msg) ELSE r.S IN
          IF x.st = "unspec" THEN W(Un(r.S, "map key"), v, p, TRUE)
          ELSE IF found = {} /\ m.t.e.k = "ptr" /\ k < Len(st) /\ st[k + 1].s = "c" THEN Walk(S1, VP(0), Nowhere, st, k + 1)
          ELSE IF found = {} THEN W(S1, v, Nowhere, TRUE)
          ELSE LET e == m.es[CHOOSE i \in found : TRUE][2]
                     item == IF isIf /\ m.t.e.k # "iface" THEN VIf(m.t.e, e) ELSE e IN
                 Walk(r.S, item, Nowhere, st, k + 1)
      ELSE W(S, v, Nowhere, TRUE)   \* an interface holding something else
    ELSE \* call
      LET isMethod == IsMethod(s.n)
          afterCall == k > 1 /\ st[k - 1].s = "c" IN
      IF isMethod /\ v.k = "p" /\ v.a = 0 /\ afterCall THEN W(S, v, Nowhere, TRUE)
      ELSE IF isMethod /\ v.k = "p" /\ v.a = 0 /\ s.n # "Sub.Ptr" THEN W(Un(S, "method of nil"), v, Nowhere, TRUE)
      ELSE
        LET recv == IF s.n \in DOMAIN KindSig THEN VIf(s.rt, v) ELSE IF ~isMethod THEN VNil ELSE IF v.k = "p" THEN (IF v.a = 0 THEN Zero(S.tt, [k |-> "struct", name |-> "Sub"]) ELSE S.heap[v.a].v) ELSE v
            r == CallIt(S, s.n, s.args, recv) IN
        IF Stop(r.S) THEN W(r.S, v, Nowhere, TRUE)
        ELSE IF r.isnil THEN W(r.S, v, Nowhere, TRUE)
        ELSE IF r.v.k = "p" /\ r.v.a = 0 /\ k < Len(st) THEN W(r.S, v, Nowhere, TRUE)
        ELSE Walk(r.S, r.v, Nowhere, st, k + 1)

EvalPath(S, e) ==
  LET start == IF e.root = "" THEN VNil ELSE S.vars[e.root] IN
  Walk(S, start, IF e.root = "" THEN Nowhere ELSE InVar(e.root), e.st, 1)

Eval(S, e) ==
  IF Stop(S) THEN R(S, VNil)
  ELSE CASE e.o = "lit" -> R(S, e.v)
    [] e.o = "undef" -> R(Un(S, "undefined operand"), VNil)
    [] e.o = "path" -> LET r == EvalPath(S, e) IN R(r.S, IF r.isnil /\ ~Stop(r.S) THEN Zero(S.tt, e.t) ELSE r.v)
    [] e.o = "not" -> LET r == Eval(S, e.e) IN IF Stop(r.S) THEN r ELSE R(r.S, VB(r.v.v = 0))
    [] e.o = "bin" ->
         LET l == Eval(S, e.l) IN
         IF Stop(l.S) THEN l
         ELSE LET r == Eval(l.S, e.r) IN
           IF Stop(r.S) THEN r
           ELSE LET x == UnifyOperand(r.S, e.rt, e.ptr, e.l.t, l.v)
                    y == UnifyOperand(r.S, e.rt, e.ptr, e.r.t, r.v) IN
             IF {x.st, y.st} \cap {"unspec", "err"} # {} THEN R(Un(r.S, "operand conversion"), VNil)
             ELSE IF x.st = "skip" \/ y.st = "skip" THEN
               (IF e.ptr THEN R(r.S, VB(NilOp(e.op, x.st = "skip", y.st = "skip"))) ELSE R(Un(r.S, "nil operand"), VNil))
             ELSE LET z == Apply(e.op, e.rt.k, x.v, y.v) IN
               IF z.u # "" THEN R(Un(r.S, z.u), VNil) ELSE R(r.S, z.v)

\* ---- assignment ------------------------------------------------------------------------------------
RECURSIVE Put(_, _, _)
Put(v, fs, x) == IF fs = <<>> THEN x ELSE [v EXCEPT !.f[fs[1]] = Put(@, Tail(fs), x)]
Write(S, p, x) ==
  CASE p.k = "none" -> S
    [] p.k = "var" -> [S EXCEPT !.vars[p.root] = Put(@, p.fs, x)]
    [] p.k = "obj" -> [S EXCEPT !.heap[p.a].v = Put(@, p.fs, x)]
    [] p.k = "elem" -> [S EXCEPT !.heap[p.a].e[p.i] = Put(@, p.fs, x)]

\* target, then source, then the converted value is stored
AssignTo(S, s) ==
  LET to == EvalPath(S, s.to) IN
  IF Stop(to.S) THEN (IF s.to.t.k = "struct" /\ Eval(S, s.e).S # S THEN Un(to.S, "order of the operands") ELSE to.S)
  ELSE LET e == Eval(to.S, s.e) IN
    IF s.to.t.k = "struct" /\ to.S # S /\ e.S # to.S THEN Un(e.S, "order of the operands")   \* the source of a struct comes first
    ELSE IF Stop(e.S) THEN e.S
    ELSE LET x == Convert(e.S, s.to.t, s.e.t, e.v) IN
      CASE x.st = "ok" -> IF to.isnil THEN e.S ELSE Write(e.S, to.p, x.v)
        [] x.st = "skip" -> e.S
        [] x.st = "err" -> AddErr(e.S, x.msg)
        [] OTHER -> Un(e.S, "assigned conversion")
=============================================================================
