---------------------------- MODULE TemplateTrace ----------------------------
(* The template machine, validating recorded executions.

   A case holds declared variables with their values, templates (as syntax trees), and the steps taken: new states,
   executions, resets, assignments from outside. For each the real code recorded what it showed: the result of the
   compilation, and for every execution its result, the output buffer, the events of called functions and the values
   of the variables. The machine executes the case statement by statement; every piece of output is compared with the
   recorded one at its place, everything else at the end of the execution. The verdict of each case is printed:
   "ok", "bad" (with what differs) or "unspec" (from some point on the case is outside of the specification). *)
EXTENDS Eval, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci,      \* case
          k,       \* number of steps taken
          phase,   \* "compile" | "idle" | "run" | "done"
          env,     \* names known to the planner
          plans,   \* compiled templates
          pc,      \* position in the steps of the case
          nobs,    \* executions compared so far
          S,       \* machine: heap, variables of the executing state, events, failures
          states,  \* state number -> [vars, errs, out] of states that are not executing
          cur,     \* executing state
          stk,     \* continuation stack of the execution
          out,     \* output of the executing state
          verdict
vars == <<ci, k, phase, env, plans, pc, nobs, S, states, cur, stk, out, verdict>>

C == Cases[ci]
Obs == C.obs[nobs + 2]      \* of the running execution
Step == C.steps[pc]
MaxSteps == 20000

Ok == [v |-> "run", what |-> "", want |-> "", got |-> "", at |-> 0]
Bad(what, want, got, at) == [v |-> "bad", what |-> what, want |-> want, got |-> got, at |-> at]
Unspec(why) == [v |-> "unspec", what |-> why, want |-> "", got |-> "", at |-> 0]
Report(vd) == PrintT("@@" \o ToJson([i |-> ci, id |-> C.id, v |-> vd.v, what |-> vd.what, want |-> vd.want, got |-> vd.got, at |-> vd.at, k |-> k, ex |-> nobs]))

Init ==
  /\ ci \in 1..Len(Cases)
  /\ k = 0 /\ phase = "compile" /\ plans = <<>> /\ pc = 1 /\ nobs = 0 /\ states = <<>> /\ cur = 0 /\ stk = <<>> /\ out = ""
  /\ env = EnvOf(Cases[ci].types, Cases[ci].decl)
  /\ S = [tt |-> Cases[ci].types, heap |-> Cases[ci].heap, vars |-> [x \in {} |-> 0], ev |-> <<>>, errs |-> <<>>,
          u |-> "", pan |-> "", pmsg |-> "", pm |-> Cases[ci].panic]
  /\ verdict = Ok

Done(vd) == /\ verdict' = vd /\ phase' = "done" /\ Report(vd)

\* ---- compilation ---------------------------------------------------------------------
Seen == C.obs[1].st
\* every compiled template extends the names known to the planner
Compile ==
  /\ phase = "compile"
  /\ k' = k + 1
  /\ IF Seen \notin {"ok", "cerr"} THEN Done(Bad("compile", "a plan or an error", Seen \o ": " \o C.obs[1].msg, 0)) /\ UNCHANGED <<env, plans>>
     ELSE IF Len(plans) = Len(C.tpls) THEN
       IF Seen = "ok" THEN phase' = "idle" /\ UNCHANGED <<env, plans, verdict>>
       ELSE Done(Bad("compile", "accepted", C.obs[1].msg, 0)) /\ UNCHANGED <<env, plans>>
     ELSE LET r == Block([tt |-> C.types, env |-> env, later |-> {}], C.tpls[Len(plans) + 1].ast, <<>>) IN
       CASE r.st = "ok" -> env' = r.env /\ plans' = Append(plans, r.x) /\ UNCHANGED <<phase, verdict>>
         [] r.st = "cerr" ->
              /\ Done(IF Seen = "cerr" /\ C.obs[1].out = Str(Len(plans) + 1) THEN [Ok EXCEPT !.v = "ok", !.what = "rejected"]
                      ELSE Bad("compile", "rejected: " \o r.why, Seen \o C.obs[1].out, Len(plans) + 1))
              /\ UNCHANGED <<env, plans>>
         [] OTHER -> Done(Unspec(r.why)) /\ UNCHANGED <<env, plans>>
  /\ UNCHANGED <<ci, pc, nobs, S, states, cur, stk, out>>

\* ---- states ----------------------------------------------------------------------------
DeclVars(ds) == [r \in {RootOf(ds, i) : i \in 1..Len(ds)} |-> ds[CHOOSE i \in 1..Len(ds) : RootOf(ds, i) = r].v]
\* a new state holds the declared values and the zero value of everything else
NewVars == LET d == DeclVars(C.decl) roots == {env[i].root : i \in 1..Len(env)} IN
           [r \in roots |-> IF r \in DOMAIN d THEN d[r] ELSE Zero(C.types, env[CHOOSE i \in 1..Len(env) : env[i].root = r].rt)]
Plain == SelectSeq([i \in 1..Len(C.decl) |-> i], LAMBDA i : C.decl[i].emb = 0)
Idle == phase = "idle" /\ pc <= Len(C.steps)
NewState ==
  /\ Idle /\ Step.op = "new"
  /\ states' = (Step.s :> [vars |-> NewVars, errs |-> <<>>, out |-> "", id |-> ""]) @@ states
  /\ k' = k + 1 /\ pc' = pc + 1 /\ UNCHANGED <<ci, phase, env, plans, nobs, S, cur, stk, out, verdict>>
SetVars ==
  /\ Idle /\ Step.op = "set"
  /\ states' = [states EXCEPT ![Step.s].vars = DeclVars(Step.set) @@ @]
  /\ k' = k + 1 /\ pc' = pc + 1 /\ UNCHANGED <<ci, phase, env, plans, nobs, S, cur, stk, out, verdict>>
\* an empty output and no failures, variables are kept
Reset ==
  /\ Idle /\ Step.op = "reset"
  /\ states' = [states EXCEPT ![Step.s].errs = <<>>, ![Step.s].out = ""]
  /\ k' = k + 1 /\ pc' = pc + 1 /\ UNCHANGED <<ci, phase, env, plans, nobs, S, cur, stk, out, verdict>>
\* a state of a pool is nobody else's, and like a new one: no output, no failures, zero values
ZeroVars == LET roots == {env[i].root : i \in 1..Len(env)} IN
            [r \in roots |-> Zero(C.types, env[CHOOSE i \in 1..Len(env) : env[i].root = r].rt)]
PoolDiff ==
  IF Len(C.obs) < nobs + 2 THEN <<"recorded", C.obs[Len(C.obs)].st \o " " \o C.obs[Len(C.obs)].msg>>
  ELSE IF Obs.st # "ok" THEN <<"a state", Obs.st \o " " \o Obs.msg>>
  ELSE IF \E s \in DOMAIN states : states[s].id = Obs.ev[1] THEN <<"a state nobody holds", "state " \o Obs.ev[1]>>
  ELSE IF Obs.out # "" THEN <<"no output", Obs.out>>
  ELSE IF Obs.ev[2] # "0" THEN <<"no errors", Obs.ev[2]>>
  ELSE LET z == ZeroVars
           want == [j \in 1..Len(Plain) |-> Wrap(C.decl[Plain[j]].n \o "=", Dump(S, C.decl[Plain[j]].t, z[C.decl[Plain[j]].n]), "")]
           diff == {j \in 1..Len(Plain) : ~want[j].u /\ want[j].s # Obs.vars[j]} IN
       IF diff = {} THEN <<>> ELSE LET j == CHOOSE x \in diff : TRUE IN <<want[j].s, Obs.vars[j]>>
PoolGet ==
  /\ Idle /\ Step.op = "get"
  /\ LET d == PoolDiff IN
     IF d # <<>> THEN Done(Bad("pool", d[1], d[2], 0)) /\ UNCHANGED <<pc, nobs, states>>
     ELSE /\ states' = (Step.s :> [vars |-> ZeroVars, errs |-> <<>>, out |-> "", id |-> Obs.ev[1]]) @@ states
          /\ pc' = pc + 1 /\ nobs' = nobs + 1 /\ UNCHANGED <<phase, verdict>>
  /\ k' = k + 1 /\ UNCHANGED <<ci, env, plans, S, cur, stk, out>>
PoolPut ==
  /\ Idle /\ Step.op = "put"
  /\ states' = [s \in DOMAIN states \ {Step.s} |-> states[s]]
  /\ k' = k + 1 /\ pc' = pc + 1 /\ UNCHANGED <<ci, phase, env, plans, nobs, S, cur, stk, out, verdict>>
Collect == \* the garbage collector runs: nothing changes
  /\ Idle /\ Step.op = "gc"
  /\ k' = k + 1 /\ pc' = pc + 1 /\ UNCHANGED <<ci, phase, env, plans, nobs, S, states, cur, stk, out, verdict>>
Start ==
  /\ Idle /\ Step.op = "exec"
  /\ cur' = Step.s
  /\ S' = [S EXCEPT !.vars = states[Step.s].vars, !.errs = states[Step.s].errs, !.ev = <<>>, !.pan = "", !.pmsg = ""]
  /\ out' = states[Step.s].out
  /\ stk' = <<[k |-> "blk", ss |-> plans[Step.t], i |-> 1]>>
  /\ phase' = "run"
  /\ k' = k + 1 /\ UNCHANGED <<ci, env, plans, pc, nobs, states, verdict>>
Finished ==
  /\ phase = "idle" /\ pc > Len(C.steps)
  /\ k' = k + 1 /\ Done([Ok EXCEPT !.v = "ok"])
  /\ UNCHANGED <<ci, env, plans, pc, nobs, S, states, cur, stk, out>>

\* ---- execution -------------------------------------------------------------------------------
Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
Running == phase = "run" /\ verdict.v = "run" /\ ~Stop(S) /\ stk # <<>> /\ k <= MaxSteps
AtStmt(o) == Running /\ Top.k = "blk" /\ Top.i <= Len(Top.ss) /\ Top.ss[Top.i].o = o
Cur == Top.ss[Top.i]
Advanced == Append(Below, [Top EXCEPT !.i = @ + 1])
Frame(n) == UNCHANGED <<ci, phase, env, plans, pc, nobs, states, cur>> /\ k' = k + 1

Part(s, i, j) == LET e == IF j > Len(s) THEN Len(s) ELSE j IN IF i > e THEN "" ELSE SubSeq(s, i, e)
\* adds a text to the output, which has to be what was recorded at that place
Emit(S1, x) ==
  IF x.u THEN /\ S' = Un(S1, "text of a value") /\ UNCHANGED <<out, verdict>>
  ELSE LET seen == IF Len(C.obs) < nobs + 2 THEN x.s ELSE Part(Obs.out, Len(out) + 1, Len(out) + Len(x.s)) IN
    /\ out' = out \o x.s
    /\ S' = S1
    /\ verdict' = IF verdict.v = "run" /\ seen # x.s THEN Bad("output", x.s, seen, Len(out)) ELSE verdict

Text == /\ AtStmt("text") /\ stk' = Advanced /\ Emit(S, TX(Cur.s)) /\ Frame(1)
Ref ==
  /\ AtStmt("ref") /\ stk' = Advanced /\ Frame(1)
  /\ LET esc(x) == IF C.esc = 1 /\ ~x.u THEN TX(HtmlEscape(x.s)) ELSE x IN
     IF Cur.e.o = "undef" THEN Emit(S, esc(TX(Cur.src)))
     ELSE LET r == Eval(S, Cur.e) IN
       IF Stop(r.S) THEN S' = r.S /\ UNCHANGED <<out, verdict>>
       ELSE Emit(r.S, esc(Render(r.S, Cur.e.t, r.v)))
SetStmt == /\ AtStmt("set") /\ stk' = Advanced /\ S' = AssignTo(S, Cur) /\ UNCHANGED <<out, verdict>> /\ Frame(1)

RECURSIVE Choose(_, _, _)   \* conditions are evaluated until one is true
Choose(S0, s, i) ==
  IF i > Len(s.br) THEN [S |-> S0, b |-> s.el]
  ELSE LET r == Eval(S0, s.br[i].c) IN
    IF Stop(r.S) THEN [S |-> r.S, b |-> <<>>]
    ELSE IF Truthy(r.S, s.br[i].c.t, r.v) THEN [S |-> r.S, b |-> s.br[i].b]
    ELSE Choose(r.S, s, i + 1)
If ==
  /\ AtStmt("if") /\ Frame(1) /\ UNCHANGED <<out, verdict>>
  /\ LET r == Choose(S, Cur, 1) IN
     S' = r.S /\ stk' = Append(Advanced, [k |-> "blk", ss |-> r.b, i |-> 1])

ForInit == /\ AtStmt("for") /\ S' = AssignTo(S, Cur.init)
           /\ stk' = Append(Advanced, [k |-> "for", s |-> Cur, post |-> FALSE]) /\ UNCHANGED <<out, verdict>> /\ Frame(1)
ForTest ==
  /\ Running /\ Top.k = "for" /\ ~Top.post /\ Frame(1) /\ UNCHANGED <<out, verdict>>
  /\ LET r == Eval(S, Top.s.c) IN
     /\ S' = r.S
     /\ stk' = IF ~Stop(r.S) /\ Truthy(r.S, Top.s.c.t, r.v)
               THEN Append(Append(Below, [Top EXCEPT !.post = TRUE]), [k |-> "blk", ss |-> Top.s.b, i |-> 1])
               ELSE Below
ForPost == /\ Running /\ Top.k = "for" /\ Top.post /\ Frame(1) /\ UNCHANGED <<out, verdict>>
           /\ S' = AssignTo(S, Top.s.post) /\ stk' = Append(Below, [Top EXCEPT !.post = FALSE])

\* the loop goes over the items the slice has when it starts; they are read when their turn comes
EachStart ==
  /\ AtStmt("each") /\ Frame(1) /\ UNCHANGED <<out, verdict>>
  /\ IF Cur.in.o = "rng"
     THEN /\ S' = S
          /\ stk' = Append(Advanced, [k |-> "each", s |-> Cur, a |-> 0, n |-> Abs(Cur.in.z - Cur.in.a), i |-> 0])
     ELSE LET r == Eval(S, Cur.in) IN
          /\ S' = r.S
          /\ stk' = IF Stop(r.S) THEN Advanced ELSE Append(Advanced, [k |-> "each", s |-> Cur, a |-> r.v.a, n |-> r.v.n, i |-> 0])
EachNext ==
  /\ Running /\ Top.k = "each" /\ Top.i < Top.n /\ Frame(1) /\ UNCHANGED <<out, verdict>>
  /\ LET in == Top.s.in
         item == IF in.o = "rng" THEN VI(IF in.a < in.z THEN in.a + Top.i ELSE in.a - Top.i) ELSE S.heap[Top.a].e[Top.i + 1]
         v == IF Top.s.vt.k = "iface" /\ in.t.e.k # "iface" THEN VIf(in.t.e, item) ELSE item IN
     S' = [S EXCEPT !.vars = (Top.s.v :> v) @@ @]
  /\ stk' = Append(Append(Below, [Top EXCEPT !.i = @ + 1]), [k |-> "blk", ss |-> Top.s.b, i |-> 1])
EachEnd == /\ Running /\ Top.k = "each" /\ Top.i >= Top.n /\ stk' = Below /\ UNCHANGED <<S, out, verdict>> /\ Frame(1)

(* A dynamic template is compiled with the names known at its place and runs on a copy of the variables; names which
   the enclosing scope defines further on are known to it in some histories only, and are left out. *)
Later == LET evs == {i \in 1..Len(stk) : stk[i].k = "ev"} IN
         Ids(env) \cup UNION {stk[i].later : i \in evs}
TextEntry(s) == {i \in 1..Len(C.texts) : C.texts[i].src = s}
Evaluate ==
  /\ AtStmt("eval") /\ Frame(1) /\ UNCHANGED <<out, verdict>>
  /\ LET r == Eval(S, Cur.e) IN
     IF Stop(r.S) THEN S' = r.S /\ stk' = Advanced
     ELSE LET t == TextEntry(r.v.v) IN
       IF t = {} THEN S' = Un(r.S, "unknown text") /\ stk' = Advanced
       ELSE LET e == C.texts[CHOOSE i \in t : TRUE] IN
         IF e.st = "cerr" THEN S' = r.S /\ stk' = Advanced
         ELSE LET b == Block([tt |-> S.tt, env |-> Cur.env, later |-> Later \ Ids(Cur.env)], e.ast, <<>>) IN
           CASE b.st = "cerr" -> S' = r.S /\ stk' = Advanced
             [] b.st = "unspec" -> S' = Un(r.S, b.why) /\ stk' = Advanced
             [] OTHER ->
                  /\ stk' = Append(Append(Advanced, [k |-> "ev", vars |-> r.S.vars, later |-> Ids(b.env)]), [k |-> "blk", ss |-> b.x, i |-> 1])
                  /\ LET new == SelectSeq(b.env, LAMBDA n : n.root \notin DOMAIN r.S.vars) IN
                     S' = [r.S EXCEPT !.vars = @ @@ [x \in {new[i].root : i \in 1..Len(new)} |->
                             Zero(S.tt, new[CHOOSE i \in 1..Len(new) : new[i].root = x].rt)]]
EndEvaluate == /\ Running /\ Top.k = "ev" /\ S' = [S EXCEPT !.vars = Top.vars] /\ stk' = Below /\ UNCHANGED <<out, verdict>> /\ Frame(1)
EndBlock == /\ Running /\ Top.k = "blk" /\ Top.i > Len(Top.ss) /\ stk' = Below /\ UNCHANGED <<S, out, verdict>> /\ Frame(1)

\* ---- end of an execution: everything recorded is compared ----------------------------------------
FinalVars == LET evs == {i \in 1..Len(stk) : stk[i].k = "ev"} IN
             IF evs = {} THEN S.vars ELSE stk[CHOOSE i \in evs : \A j \in evs : i <= j].vars
ExpSt == IF S.pan = "panic" THEN "panic" ELSE IF S.pan = "caught" \/ S.errs # <<>> THEN "err" ELSE "ok"
ExpMsg == IF S.pan \in {"panic", "caught"} THEN S.pmsg
          ELSE IF S.errs = <<>> THEN ""
          ELSE IF S.pan = "abort" THEN S.errs[Len(S.errs)]
          ELSE IF S.errs[1] = "*" THEN "*" ELSE "error occured while processing template: " \o S.errs[1]
Compared ==
  IF verdict.v # "run" THEN verdict
  ELSE IF Obs.st # ExpSt THEN Bad("result", ExpSt \o " " \o ExpMsg, Obs.st \o " " \o Obs.msg, 0)
  ELSE IF ExpMsg # "*" /\ Obs.msg # ExpMsg THEN Bad("error", ExpMsg, Obs.msg, 0)
  ELSE IF Obs.out # out THEN Bad("output", "", Part(Obs.out, Len(out) + 1, Len(Obs.out)), Len(out))
  ELSE IF Len(Obs.ev) # Len(S.ev) \/ \E i \in 1..Len(S.ev) : S.ev[i].s # Obs.ev[i]
    THEN Bad("calls", JoinTX(S.ev, ";").s, FoldLeft(LAMBDA a, b : a \o b \o ";", "", Obs.ev), 0)
  ELSE LET fv == FinalVars
           want == [j \in 1..Len(Plain) |-> Wrap(C.decl[Plain[j]].n \o "=", Dump(S, C.decl[Plain[j]].t, fv[C.decl[Plain[j]].n]), "")]
           diff == {j \in 1..Len(Plain) : ~want[j].u /\ want[j].s # Obs.vars[j]} IN
    IF diff = {} THEN verdict
    ELSE LET j == CHOOSE x \in diff : \A y \in diff : x <= y IN Bad("variables", want[j].s, Obs.vars[j], j)
Finish ==
  /\ phase = "run" /\ verdict.v = "run" /\ (stk = <<>> \/ Stop(S) \/ k > MaxSteps)
  /\ k' = k + 1
  /\ IF S.u # "" \/ k > MaxSteps
     THEN Done(IF verdict.v # "run" THEN verdict ELSE Unspec(IF S.u = "" THEN "too many steps" ELSE S.u))
          /\ UNCHANGED <<pc, nobs, states, S, stk>>
     ELSE IF Len(C.obs) < nobs + 2
     THEN Done(Bad("execution", "recorded", C.obs[Len(C.obs)].st \o " " \o C.obs[Len(C.obs)].msg, 0)) /\ UNCHANGED <<pc, nobs, states, S, stk>>
     ELSE IF Compared.v # "run" THEN Done(Compared) /\ UNCHANGED <<pc, nobs, states, S, stk>>
     ELSE /\ phase' = "idle" /\ verdict' = verdict
          /\ states' = [states EXCEPT ![cur] = [vars |-> FinalVars, errs |-> S.errs, out |-> out, id |-> @.id]]
          /\ S' = [S EXCEPT !.pan = "", !.pmsg = ""] /\ stk' = <<>>
          /\ pc' = pc + 1 /\ nobs' = nobs + 1
  /\ UNCHANGED <<ci, env, plans, cur, out>>
\* output that differs ends the case at once
Differs == /\ phase = "run" /\ verdict.v = "bad" /\ Done(verdict) /\ k' = k + 1 /\ UNCHANGED <<ci, env, plans, pc, nobs, S, states, cur, stk, out>>

Next ==
  \/ Compile \/ NewState \/ SetVars \/ Reset \/ PoolGet \/ PoolPut \/ Collect \/ Start \/ Finished \/ Finish \/ Differs
  \/ Text \/ Ref \/ SetStmt \/ If \/ ForInit \/ ForTest \/ ForPost \/ EachStart \/ EachNext \/ EachEnd
  \/ Evaluate \/ EndEvaluate \/ EndBlock
Spec == Init /\ [][Next]_vars
View == <<ci, k>>

\* ---- properties of the specification itself --------------------------------------------------------
\* every variable always holds a value of its declared type
TypeOK == phase = "run" => \A i \in 1..Len(env) : env[i].root \in DOMAIN S.vars => HasType(S.tt, env[i].rt, S.vars[env[i].root])
\* output only grows and failures are never forgotten while an execution runs
Grows == [][phase = "run" /\ phase' = "run" => /\ Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out
                                               /\ Len(S'.errs) >= Len(S.errs) /\ Len(S'.ev) >= Len(S.ev) /\ Len(S'.heap) >= Len(S.heap)]_vars
\* under panic-on-error at most one failure is recorded by an execution and nothing follows it
StopsAtFailure == [][phase = "run" /\ S.pan # "" => out' = out /\ S'.errs = S.errs]_vars
=============================================================================
