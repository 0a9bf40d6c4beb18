-------------------------------- MODULE Elab --------------------------------
(* Compilation: names of a template are resolved in textual order against the declared variables, expressions are
   grouped by precedence and typed. The result of every operator has st: "ok", "cerr" (the template is rejected) or
   "unspec" (outside of what the specification decides), the first one that is not "ok" stops the compilation.

   A context C is [tt: types, env: sequence of [id, root, fs, t], later: ids known only to the enclosing scope]. *)
EXTENDS Values, Funcs

OK(x) == [st |-> "ok", x |-> x, why |-> ""]
CERR(why) == [st |-> "cerr", x |-> <<>>, why |-> why]
UNSPEC(why) == [st |-> "unspec", x |-> <<>>, why |-> why]

\* ---- names ------------------------------------------------------------------------
\* ids of the fields of a struct, as sequence of [n, fs, t]; fields of embedded structs join those of their holder
RECURSIVE SelIds(_, _, _)
SelIds(tt, name, prefix) ==
  LET fs == tt[name]
      one(f) ==
        IF f.omit = 1 THEN <<>>
        ELSE IF f.emb = 1 THEN
          LET in == SelIds(tt, Deref(f.t).name, prefix \o f.prefix) IN
          [i \in 1..Len(in) |-> [n |-> in[i].n, t |-> in[i].t, fs |-> <<f.n>> \o in[i].fs]]
        ELSE LET names == IF f.names = <<>> THEN <<f.n>> ELSE SelectSeq(f.names, LAMBDA x : x # "_") IN
          [i \in 1..Len(names) |-> [n |-> prefix \o names[i], t |-> f.t, fs |-> <<f.n>>]]
  IN FlattenSeq([i \in 1..Len(fs) |-> one(fs[i])])

\* field of a value of the type
Lookup(tt, t, n) ==
  LET d == Deref(t) IN
  IF d.k # "struct" THEN CERR("field of " \o TName(t))
  ELSE LET ids == SelectSeq(SelIds(tt, d.name, ""), LAMBDA x : x.n = n) IN
    IF ids = <<>> THEN CERR("no field " \o n) ELSE OK(ids[1])

EnvOf(tt, decl) ==
  FlattenSeq([i \in 1..Len(decl) |->
    IF decl[i].emb = 1
    THEN LET in == SelIds(tt, Deref(decl[i].t).name, "") IN
         [j \in 1..Len(in) |-> [id |-> in[j].n, root |-> "@" \o Str(i), rt |-> decl[i].t, fs |-> in[j].fs, t |-> in[j].t]]
    ELSE LET ids == <<decl[i].n>> \o decl[i].alias IN
         [j \in 1..Len(ids) |-> [id |-> ids[j], root |-> decl[i].n, rt |-> decl[i].t, fs |-> <<>>, t |-> decl[i].t]]])
RootOf(decl, i) == IF decl[i].emb = 1 THEN "@" \o Str(i) ELSE decl[i].n
Ids(env) == {env[i].id : i \in 1..Len(env)}
Entry(env, id) == env[CHOOSE i \in 1..Len(env) : env[i].id = id]
Define(env, id, t) == Append(env, [id |-> id, root |-> id, rt |-> t, fs |-> <<>>, t |-> t])

\* ---- unification of binary operands ---------------------------------------------------
NormT(t) == LET d == IF t.k = "ptr" THEN t.e ELSE t IN
            IF d.k \in IntK THEN TInt ELSE IF d.k \in FloatK THEN TF64 ELSE d
Precedes(over, t) == CASE over.k \in FloatK -> t.k \in IntK \/ t.k = "float32"
                       [] over.k = "string" -> TRUE
                       [] OTHER -> FALSE
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
OrdOps == {"<", "<=", ">", ">="}
ArithOps == {"+", "-", "*", "/"}
OpsOf(k, pointer) ==
  CASE k \in NumK -> IF pointer THEN CmpOps ELSE CmpOps \cup ArithOps
    [] k = "string" -> IF pointer THEN {"==", "!="} ELSE {"==", "!=", "+"}
    [] k = "bool" -> IF pointer THEN {"==", "!="} ELSE {"==", "!=", "&&", "||"}
    [] OTHER -> {}
\* [rt: type both operands are converted to, ptr: operands can be nil]
Unify(x, y) ==
  IF x.k = "undef" \/ y.k = "undef" THEN CERR("undefined operand")
  ELSE IF TEq(x, y) THEN
    IF x.k = "ptr" THEN (IF x.e.k = "ptr" THEN CERR("pointer to pointer") ELSE OK([rt |-> x.e, ptr |-> TRUE]))
    ELSE OK([rt |-> NormT(x), ptr |-> FALSE])
  ELSE LET rt == NormT(IF Precedes(y, x) THEN y ELSE x)
           cx == ConvKind(rt, x) cy == ConvKind(rt, y)
           pt == x.k = "ptr" \/ y.k = "ptr" IN
    IF (x.k = "ptr" /\ x.e.k = "ptr") \/ (y.k = "ptr" /\ y.e.k = "ptr") THEN UNSPEC("pointer to pointer operand")
    ELSE IF cx = "cerr" \/ cy = "cerr" THEN CERR("operands " \o TName(x) \o " " \o TName(y))
    ELSE IF cx = "unspec" \/ cy = "unspec" THEN UNSPEC("operands " \o TName(x) \o " " \o TName(y))
    ELSE OK([rt |-> rt, ptr |-> pt])

Prec(o) == CASE o = "||" -> 0 [] o = "&&" -> 1 [] o \in {"==", "!="} -> 2 [] o \in OrdOps -> 3 [] o \in {"+", "-"} -> 4 [] OTHER -> 5
\* position of the operator applied last: the last of the least precedence
Split(ops, lo, hi) == CHOOSE i \in lo..hi : /\ \A j \in lo..hi : Prec(ops[j]) >= Prec(ops[i])
                                            /\ \A j \in (i+1)..hi : Prec(ops[j]) > Prec(ops[i])

\* ---- expressions ---------------------------------------------------------------------------
RECURSIVE Expr(_, _)
RECURSIVE Chain(_, _, _, _, _)
RECURSIVE Args(_, _, _)
RECURSIVE Steps(_, _, _, _)

Args(C, args, done) ==
  IF Len(done) = Len(args) THEN OK(done)
  ELSE LET e == Expr(C, args[Len(done) + 1]) IN
    IF e.st # "ok" THEN e
    ELSE IF e.x.o = "undef" THEN CERR("undefined argument")
    ELSE Args(C, args, Append(done, e.x))

\* steps of a path from the k-th one, t is the type reached; result is the sequence of typed steps
Steps(C, t, st, done) ==
  IF Len(done) = Len(st) THEN OK(done)
  ELSE LET s == st[Len(done) + 1] IN
    IF s.s = "f" THEN
      LET l == Lookup(C.tt, t, s.n) IN
      IF l.st # "ok" THEN l
      ELSE Steps(C, l.x.t, st, Append(done, [s |-> "f", fs |-> l.x.fs, t |-> l.x.t]))
    ELSE IF s.s = "i" THEN
      LET e == Expr(C, s.e) IN
      IF t.k \notin {"slice", "map", "iface"} THEN CERR("index of " \o TName(t))
      ELSE IF e.st # "ok" THEN e
      ELSE IF e.x.o = "undef" THEN CERR("undefined index")
      ELSE LET ck == IF t.k = "map" THEN "ok" ELSE ConvKind(TInt, e.x.t)
               rt == IF t.k = "iface" THEN t ELSE t.e IN
        IF ck = "cerr" THEN CERR("index by " \o TName(e.x.t))
        ELSE IF ck = "unspec" THEN UNSPEC("index by " \o TName(e.x.t))
        ELSE Steps(C, rt, st, Append(done, [s |-> "i", e |-> e.x, ct |-> t, t |-> rt]))
    ELSE LET m == MethodOf(t, s.n) a == Args(C, s.args, <<>>) IN
      IF m = "" /\ ((s.n = "HasKey" /\ t.k = "map") \/ (s.n = "IndexBy" /\ t.k = "slice")) THEN
        LET out == IF s.n = "HasKey" THEN TBool ELSE [k |-> "map", key |-> TIface, e |-> t.e] IN
        IF a.st # "ok" THEN a
        ELSE IF Len(s.args) # 1 THEN UNSPEC("arguments of " \o s.n)
        ELSE Steps(C, out, st, Append(done, [s |-> "c", n |-> s.n, args |-> a.x, t |-> out, rt |-> t]))
      ELSE IF m = "" THEN (IF s.n \in FuncNames \cup DOMAIN KindSig THEN UNSPEC("function as method") ELSE CERR("no method " \o s.n))
      ELSE IF a.st # "ok" THEN a
      ELSE Steps(C, MethodSig[m].out, st, Append(done, [s |-> "c", n |-> m, args |-> a.x, t |-> MethodSig[m].out]))

TUNDEF == [o |-> "undef", t |-> TUndef]
PathX(C, p) ==
  IF p.call = 1 THEN
    IF p.id \in FuncNames THEN
      LET a == Args(C, p.args, <<>>) out == FuncSig[p.id].out IN
      IF a.st = "cerr" THEN OK(TUNDEF)   \* a call whose arguments have no meaning is an unknown name
      ELSE IF a.st # "ok" THEN a
      ELSE LET full == Steps(C, out, p.st, <<>>) IN
        IF full.st # "ok" THEN full
        ELSE LET steps == <<[s |-> "c", n |-> p.id, args |-> a.x, t |-> out]>> \o full.x IN
          IF p.st # <<>> /\ p.st[1].s = "f" THEN CERR("field of a call")
          ELSE OK([o |-> "path", root |-> "", rt |-> TUndef, fs |-> <<>>, st |-> steps, t |-> steps[Len(steps)].t])
    ELSE IF p.id \in Ids(C.env) \cup C.later THEN UNSPEC("call of a variable")
    ELSE OK(TUNDEF)
  ELSE IF p.id \in FuncNames THEN UNSPEC("function used as a variable")
  ELSE IF p.id \in NsIds \ Ids(C.env) THEN
    IF p.id \in C.later THEN UNSPEC("defined later")
    ELSE IF p.st = <<>> THEN OK(TUNDEF)
    ELSE IF p.st[1].s # "c" THEN CERR("field or index of a namespace")
    ELSE LET n == p.id \o "." \o p.st[1].n a == Args(C, p.st[1].args, <<>>) IN
      IF n \in {"time.Now", "json.UnmarshalInto"} THEN UNSPEC(n)
      ELSE IF n \notin DOMAIN NsSig THEN CERR("not found function " \o n)
      ELSE IF a.st # "ok" THEN a
      ELSE LET out == NsSig[n].out full == Steps(C, out, Tail(p.st), <<>>) IN
        IF full.st # "ok" THEN full
        ELSE IF Len(p.st) > 1 /\ p.st[2].s = "f" THEN CERR("field of a call")
        ELSE LET steps == <<[s |-> "c", n |-> n, args |-> a.x, t |-> out]>> \o full.x IN
          OK([o |-> "path", root |-> "", rt |-> TUndef, fs |-> <<>>, st |-> steps, t |-> steps[Len(steps)].t])
  ELSE IF p.id \notin Ids(C.env) THEN (IF p.id \in C.later THEN UNSPEC("defined later") ELSE OK(TUNDEF))
  ELSE LET n == Entry(C.env, p.id) s == Steps(C, n.t, p.st, <<>>) IN
    IF s.st # "ok" THEN s
    ELSE IF \E i \in 1..Len(p.st) - 1 : p.st[i].s = "c" /\ p.st[i + 1].s = "f" THEN CERR("field of a call")
    ELSE LET first == IF n.fs = <<>> THEN <<>> ELSE <<[s |-> "f", fs |-> n.fs, t |-> n.t]>>
             steps == first \o s.x IN
      OK([o |-> "path", root |-> n.root, rt |-> n.rt, st |-> steps, t |-> IF steps = <<>> THEN n.rt ELSE steps[Len(steps)].t])

Bin(o, l, r) ==
  LET u == Unify(l.t, r.t) IN
  IF u.st # "ok" THEN u
  ELSE IF o \notin OpsOf(u.x.rt.k, u.x.ptr) THEN CERR("operator " \o o \o " of " \o TName(u.x.rt))
  ELSE OK([o |-> "bin", op |-> o, l |-> l, r |-> r, rt |-> u.x.rt, ptr |-> u.x.ptr,
           t |-> IF o \in CmpOps THEN TBool ELSE u.x.rt])

Chain(C, a, ops, lo, hi) ==   \* operands lo..hi, joined by operators lo..hi-1
  IF lo = hi THEN Expr(C, a[lo])
  ELSE LET i == Split(ops, lo, hi - 1)
           l == Chain(C, a, ops, lo, i)
           r == IF l.st = "ok" THEN Chain(C, a, ops, i + 1, hi) ELSE l IN
    IF r.st # "ok" THEN r ELSE Bin(ops[i], l.x, r.x)

Expr(C, e) ==
  CASE e.o = "lit" -> OK([o |-> "lit", t |-> e.t, v |-> e.v])
    [] e.o = "path" -> PathX(C, e)
    [] e.o = "par" -> Expr(C, e.e)
    [] e.o = "chain" -> Chain(C, e.a, e.ops, 1, Len(e.a))
    [] e.o = "not" -> LET x == Expr(C, e.e) IN
         IF x.st # "ok" THEN x ELSE IF x.x.t.k # "bool" THEN CERR("negation of " \o TName(x.x.t))
         ELSE OK([o |-> "not", e |-> x.x, t |-> TBool])

\* ---- statements ------------------------------------------------------------------------------
\* results carry env too
WithEnv(r, env) == [st |-> r.st, x |-> r.x, why |-> r.why, env |-> env]

Cond(C, e) ==
  LET x == Expr(C, e) IN
  IF x.st # "ok" THEN x
  ELSE IF x.x.o = "undef" THEN CERR("undefined condition")
  ELSE IF x.x.t.k = "ptr" /\ x.x.t.e.k = "ptr" THEN UNSPEC("pointer to pointer condition")
  ELSE x

Assign(C, to, e) ==
  LET x == PathX(C, to) y == IF x.st = "ok" THEN Expr(C, e) ELSE x IN
  IF y.st # "ok" THEN WithEnv(y, C.env)
  ELSE IF x.x.o = "undef" /\ (to.st # <<>> \/ to.call = 1 \/ to.id \in NsIds) THEN WithEnv(UNSPEC("field of undefined target"), C.env)
  ELSE IF y.x.o = "undef" THEN WithEnv(CERR("undefined source"), C.env)
  ELSE IF x.x.o = "undef" THEN
    LET env == Define(C.env, to.id, y.x.t) IN
    WithEnv(OK([o |-> "set", to |-> [o |-> "path", root |-> to.id, rt |-> y.x.t, st |-> <<>>, t |-> y.x.t], e |-> y.x]), env)
  ELSE IF x.x.st # <<>> /\ x.x.st[Len(x.x.st)].s = "c" THEN WithEnv(UNSPEC("call as target"), C.env)
  ELSE LET ck == ConvKind(x.x.t, y.x.t) IN
    WithEnv(IF ck = "cerr" THEN CERR("assign " \o TName(y.x.t) \o " to " \o TName(x.x.t))
            ELSE IF ck = "unspec" THEN UNSPEC("assign " \o TName(y.x.t) \o " to " \o TName(x.x.t))
            ELSE OK([o |-> "set", to |-> x.x, e |-> y.x]), C.env)

PostExpr(s) ==
  CASE s.pop = "++" -> [o |-> "chain", a |-> <<s.pv, [o |-> "lit", t |-> TInt, v |-> VI(1)]>>, ops |-> <<"+">>]
    [] s.pop = "--" -> [o |-> "chain", a |-> <<s.pv, [o |-> "lit", t |-> TInt, v |-> VI(1)]>>, ops |-> <<"-">>]
    [] OTHER -> [o |-> "chain", a |-> <<s.pv, [o |-> "par", e |-> s.pe]>>, ops |-> <<At(s.pop, 1)>>]

RECURSIVE Block(_, _, _)
RECURSIVE Stmt(_, _)
RECURSIVE Branches(_, _, _)

WE(C, env) == [C EXCEPT !.env = env]

Branches(C, br, done) ==
  IF Len(done) = Len(br) THEN WithEnv(OK(done), C.env)
  ELSE LET c == Cond(C, br[Len(done) + 1].c)
           b == IF c.st = "ok" THEN Block(C, br[Len(done) + 1].b, <<>>) ELSE WithEnv(c, C.env) IN
    IF b.st # "ok" THEN b ELSE Branches(WE(C, b.env), br, Append(done, [c |-> c.x, b |-> b.x]))

Stmt(C, s) ==
  CASE s.o = "text" -> WithEnv(OK(s), C.env)
    [] s.o = "misnested" -> WithEnv(CERR("block structure"), C.env)
    [] s.o = "raw" -> WithEnv(OK([o |-> "text", s |-> s.s]), C.env)
    [] s.o = "com" -> WithEnv(OK([o |-> "text", s |-> ""]), C.env)
    [] s.o = "ref" ->
         LET x == PathX(C, s.e) IN
         WithEnv(IF x.st # "ok" THEN x ELSE OK([o |-> "ref", e |-> x.x, src |-> s.src]), C.env)
    [] s.o = "set" -> Assign(C, s.to, s.e)
    [] s.o = "if" ->
         LET b == Branches(C, s.br, <<>>) IN
         IF b.st # "ok" THEN b
         ELSE LET el == Block(WE(C, b.env), s.el, <<>>) IN
           IF el.st # "ok" THEN el
           ELSE WithEnv(OK([o |-> "if", br |-> b.x, el |-> el.x]), el.env)
    [] s.o = "for" ->
         LET i == Assign(C, s.v, s.e)
             p == IF i.st = "ok" THEN Assign(WE(C, i.env), s.pv, PostExpr(s)) ELSE i
             c == IF p.st = "ok" THEN Cond(WE(C, p.env), s.c) ELSE p
             b == IF c.st = "ok" THEN Block(WE(C, p.env), s.b, <<>>) ELSE WithEnv(c, C.env) IN
         IF b.st # "ok" THEN b
         ELSE WithEnv(OK([o |-> "for", init |-> i.x, post |-> p.x, c |-> c.x, b |-> b.x]), b.env)
    [] s.o = "each" ->
         LET x == IF s.in.o = "rng" THEN OK([o |-> "rng", a |-> s.in.a, z |-> s.in.z, t |-> SliceOf(TInt)]) ELSE PathX(C, s.in) IN
         IF x.st # "ok" THEN WithEnv(x, C.env)
         ELSE IF x.x.o = "undef" THEN WithEnv(OK([o |-> "text", s |-> ""]), C.env)
         ELSE IF x.x.t.k # "slice" THEN WithEnv(CERR("loop over " \o TName(x.x.t)), C.env)
         ELSE LET known == s.v \in Ids(C.env)
                  env == IF known THEN C.env ELSE Define(C.env, s.v, x.x.t.e)
                  n == Entry(env, s.v) IN
           IF n.fs # <<>> \/ s.v \in FuncNames \/ (~known /\ s.v \in C.later) THEN WithEnv(UNSPEC("item variable"), C.env)
           ELSE IF ~TEq(n.t, x.x.t.e) /\ n.t.k # "iface" THEN WithEnv(CERR("item type"), C.env)
           ELSE LET b == Block(WE(C, env), s.b, <<>>) IN
             IF b.st # "ok" THEN b
             ELSE WithEnv(OK([o |-> "each", v |-> n.root, vt |-> n.t, in |-> x.x, b |-> b.x]), b.env)
    [] s.o = "eval" ->
         LET x == Expr(C, s.e) IN
         WithEnv(IF x.st # "ok" THEN x
                 ELSE IF x.x.t.k # "string" THEN CERR("evaluate " \o TName(x.x.t))
                 ELSE OK([o |-> "eval", e |-> x.x, env |-> C.env]), C.env)

Block(C, ss, done) ==
  IF Len(done) = Len(ss) THEN WithEnv(OK(done), C.env)
  ELSE LET r == Stmt(C, ss[Len(done) + 1]) IN
    IF r.st # "ok" THEN r ELSE Block(WE(C, r.env), ss, Append(done, r.x))
=============================================================================
