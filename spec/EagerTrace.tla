----------------------------- MODULE EagerTrace -----------------------------
(* Sessions of the real eager solver as behaviours of Session: the commands *)
(* are executed one per step on an assertion stack, then every recorded      *)
(* answer must be one that the state allows.                                 *)
EXTENDS Sx, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
Bg == INSTANCE BigInt
IOf(n) == n
IAdd(a, b) == a + b
IMul(a, b) == a * b
ILe(a, b) == a <= b
IDiv(a, b) == IF b > 0 THEN a \div b ELSE IF b < 0 THEN -(a \div (-b)) ELSE 0
IMod(a, b) == IF b = 0 THEN a ELSE a % (IF b < 0 THEN -b ELSE b)
M == INSTANCE EagerSem WITH NOf <- IOf, NAdd <- IAdd, NMul <- IMul, NLe <- ILe, NDiv <- IDiv, NMod <- IMod
BOf(n) == Bg!BOf(n)
BAdd(a, b) == Bg!BAdd(a, b)
BMul(a, b) == Bg!BMul(a, b)
BLe(a, b) == Bg!BLe(a, b)
BNo(a, b) == a
B == INSTANCE EagerSem WITH NOf <- BOf, NAdd <- BAdd, NMul <- BMul, NLe <- BLe, NDiv <- BNo, NMod <- BNo

VARIABLES c, pc, stack, assume, l, verdict, bad
vars == <<c, pc, stack, assume, l, verdict, bad>>
Case == Cases[c]
Big == Case.big
Ev(x, env, fun) == IF Big THEN B!Ev(x, env, fun) ELSE M!Ev(x, env, fun)
Sig == M!Sig(Case.cmds)
Default(sort, k) == IF Big THEN B!Default(sort, k) ELSE M!Default(sort, k)

\* ------------------------------------------------------------------ interpretations
NoFun == [x \in {} |-> 0]
RECURSIVE EnvSeq(_,_,_)
EnvSeq(q, env, fun) == IF q = <<>> THEN env
                       ELSE EnvSeq(Tail(q), (q[1].n :> Ev(q[1].body, env, fun)) @@ env, fun)
Holds(env, fun, as) == \A k \in 1..Len(as) : Ev(as[k], env, fun)
\* an interpretation given by definitions [n, args (names), body], completed arbitrarily
HoldsBy(defs, k, as) ==
    LET fs == {d \in Rng1(defs) : d.args # <<>>}
        fnames == {d.n : d \in fs}
        fun == [n \in M!Funs(Sig) \cup fnames |->
                   IF n \in fnames THEN LET d == CHOOSE d \in fs : d.n = n IN [args |-> d.args, body |-> d.body]
                   ELSE [args |-> [j \in 1..Len(Sig[n].args) |-> "a" \o ToString(j)], body |-> M!DefaultT(Sig[n].ret, k)]]
        base == [n \in M!Consts(Sig) |-> Default(Sig[n].ret, k)]
        env == EnvSeq(SelectSeq(defs, LAMBDA d : d.args = <<>>), base, fun)
    IN  Holds(env, fun, as)
\* every interpretation of the constants in a finite domain
Values(sort) == IF sort = "Int" THEN -Case.dom .. Case.dom
                ELSE IF sort = "Bool" THEN BOOLEAN
                ELSE [1..M!BVWidth(sort) -> {0,1}]
RECURSIVE SatIn(_,_,_)
SatIn(ns, env, as) ==
    IF ns = {} THEN Holds(env, M!Sig(<<>>), as)
    ELSE LET n == CHOOSE x \in ns : TRUE IN \E v \in Values(Sig[n].ret) : SatIn(ns \ {n}, (n :> v) @@ env, as)
\* expand define-fun macros away (family "odd")
Macros == LET ds == SelectSeq(Case.cmds, LAMBDA x : Head1(x) = "define-fun") IN
          [n \in {ds[k].a[2].t : k \in 1..Len(ds)} |->
             LET d == CHOOSE x \in Rng1(ds) : x.a[2].t = n IN [args |-> [j \in 1..Len(d.a[3].a) |-> d.a[3].a[j].a[1].t], body |-> d.a[5]]]
RECURSIVE SatInM(_,_,_)
SatInM(ns, env, as) ==
    IF ns = {} THEN Holds(env, Macros, as)
    ELSE LET n == CHOOSE x \in ns : TRUE IN \E v \in Values(Sig[n].ret) : SatInM(ns \ {n}, (n :> v) @@ env, as)

\* ------------------------------------------------------------------ models
Def(d) == [n |-> d.n, args |-> [k \in 1..Len(d.args) |-> d.args[k].n], body |-> d.body]
ModelDefs(m) == LET q == SelectSeq(m, LAMBDA d : ~d.at) IN [k \in 1..Len(q) |-> Def(q[k])]
ParamEnv(d) == [n \in {d.args[k].n : k \in 1..Len(d.args)} |-> M!SortName((CHOOSE a \in Rng1(d.args) : a.n = n).s)]
BodyOK(d) == M!SortOf(d.body, ParamEnv(d), NoFun) = M!SortName(d.sort) /\ M!SortName(d.sort) # "?"
NoDup(m) == \A i, j \in 1..Len(m) : m[i].n = m[j].n => i = j
DefOK(d) == d.at \/ (/\ d.n \in DOMAIN Sig
                     /\ M!SortName(d.sort) = Sig[d.n].ret
                     /\ [k \in 1..Len(d.args) |-> M!SortName(d.args[k].s)] = Sig[d.n].args)
ParamsOK(d) == \A i, j \in 1..Len(d.args) : d.args[i].n = d.args[j].n => i = j
Evaluable(m) == \A k \in 1..Len(m) : m[k].at \/ (DefOK(m[k]) /\ BodyOK(m[k]) /\ ParamsOK(m[k]))

\* ------------------------------------------------------------------ the session
Active == FlattenS(stack)
Asserted == Active \o assume
Init == /\ c \in 1..Len(Cases) /\ pc = 1 /\ stack = << <<>> >> /\ assume = <<>> /\ l = 1 /\ verdict = "none" /\ bad = ""
Cmd == Case.cmds[pc]
IsC(h) == l >= 1 /\ pc <= Len(Case.cmds) /\ Head1(Cmd) = h
RECURSIVE Copies(_,_)
Copies(n, q) == IF n = 0 THEN <<>> ELSE <<q>> \o Copies(n-1, q)
Keep == UNCHANGED <<c, l, verdict, bad>> /\ pc' = pc + 1
DoAssert == IsC("assert") /\ stack' = [stack EXCEPT ![Len(stack)] = Append(@, Cmd.a[2])] /\ UNCHANGED assume /\ Keep
Levels == IF Len(Cmd.a) > 1 THEN Cmd.a[2].i ELSE 1
DoPush == IsC("push") /\ stack' = stack \o Copies(Levels, <<>>) /\ UNCHANGED assume /\ Keep
DoPop == IsC("pop") /\ stack' = SubSeq(stack, 1, Len(stack) - Levels) /\ UNCHANGED assume /\ Keep
DoReset == (IsC("reset-assertions") \/ IsC("reset")) /\ stack' = << <<>> >> /\ assume' = <<>> /\ Keep
DoCheck == IsC("check-sat") /\ assume' = <<>> /\ UNCHANGED stack /\ Keep
DoCheckA == IsC("check-sat-assuming") /\ assume' = Cmd.a[2].a /\ UNCHANGED stack /\ Keep
Silent == /\ l >= 1 /\ pc <= Len(Case.cmds)
          /\ Head1(Cmd) \notin {"assert", "push", "pop", "reset-assertions", "reset", "check-sat", "check-sat-assuming"}
          /\ UNCHANGED <<stack, assume>> /\ Keep

\* ------------------------------------------------------------------ answers
HasWit == Len(Case.wit) > 0
UnsatWrong(as) ==
    IF HasWit THEN HoldsBy(Case.wit, 1, as)
    ELSE IF Case.dom > 0 /\ ~Big THEN SatInM(M!Consts(Sig), NoFun, as)
    ELSE FALSE
\* the witness really is one (a guard on the generator)
WitOK(as) == ~HasWit \/ HoldsBy(Case.wit, 1, as)
Why(e, as) ==
    IF e.e = "answer" THEN
      IF e.r = "sat" THEN
         IF Prop \in {"A01", "A04", "A05"} THEN
              (IF ~Evaluable(e.model) THEN "model is not a set of well-sorted definitions"
               ELSE IF \A k \in 1..3 : HoldsBy(ModelDefs(e.model), k, as) THEN "" ELSE "model does not satisfy the assertions")
         ELSE IF Prop = "A03" THEN
              (IF ~NoDup(e.model) THEN "symbol defined twice"
               ELSE IF \E k \in 1..Len(e.model) : ~DefOK(e.model[k]) THEN "definition of an undeclared symbol or with another signature"
               ELSE IF \E k \in 1..Len(e.model) : ~ParamsOK(e.model[k]) THEN "duplicate parameter"
               ELSE IF \E k \in 1..Len(e.model) : ~BodyOK(e.model[k]) THEN "definition is not a closed term of its sort" ELSE "")
         ELSE ""
      ELSE IF e.r = "unsat" THEN
         (IF Prop \in {"A02", "A04", "A05"} /\ UnsatWrong(as) THEN "unsat, but an interpretation satisfies the assertions" ELSE "")
      ELSE IF Prop \in {"A04", "A05"} /\ ~(Case.fam \in {"hist", "odd"}) /\ ~(e.r = "hang" /\ Case.fam = "plant") THEN "no answer for a supported script: " \o e.r
      ELSE ""
    ELSE IF e.e = "verdict" THEN       \* a front end that only reports the verdict
      IF e.r # verdict THEN e.fe \o " answers " \o e.r \o ", expected " \o verdict ELSE ""
    ELSE IF e.e = "protocol" THEN      \* an external solver that misbehaves: see SolverProtocol.tla
      IF e.must = "none" THEN (IF e.r \in {"sat", "unsat", "success without a verdict"} THEN e.fe \o " answers " \o e.r ELSE "")
      ELSE IF e.must = "verdict" /\ e.r # verdict THEN e.fe \o " answers " \o e.r \o ", expected " \o verdict
      ELSE IF e.r \in {"sat", "unsat"} /\ e.r # verdict THEN e.fe \o " answers " \o e.r \o ", expected " \o verdict
      ELSE IF e.r = "success without a verdict" THEN e.fe \o " succeeds without a verdict"
      ELSE IF e.r = "sat" THEN
           (IF ~Evaluable(e.model) THEN e.fe \o ": model is not a set of well-sorted definitions"
            ELSE IF \A k \in 1..3 : HoldsBy(ModelDefs(e.model), k, as) THEN "" ELSE e.fe \o ": model does not satisfy the assertions")
      ELSE ""
    ELSE IF e.e = "cnf" THEN
      IF e.r # "ok" THEN "encode failed: " \o e.r
      ELSE IF Len(e.cls) # e.ncl THEN "number of clauses differs from the header"
      ELSE IF \E k \in 1..Len(e.cls) : \E j \in 1..Len(e.cls[k]) : e.cls[k][j] = 0 \/ e.cls[k][j] > e.nv \/ -e.cls[k][j] > e.nv
           THEN "literal outside the declared variables"
      ELSE IF e.sat /\ \E k \in 1..Len(e.cls) : \A j \in 1..Len(e.cls[k]) :
                 LET x == e.cls[k][j] IN IF x > 0 THEN ~e.asg[x] ELSE e.asg[-x] THEN "HARNESS assignment"
      ELSE IF e.sat # (verdict = "sat") THEN "CNF is " \o (IF e.sat THEN "satisfiable" ELSE "unsatisfiable") \o ", script is " \o verdict
      ELSE ""
    ELSE "HARNESS event"
Answer ==
    /\ l >= 1 /\ l <= Len(Case.ev) /\ pc = Len(Case.cmds) + 1 /\ bad = ""
    /\ LET e == Case.ev[l] IN
       /\ bad' = IF ~WitOK(Asserted) THEN "HARNESS witness" ELSE Why(e, Asserted)
       /\ verdict' = IF e.e = "answer" THEN e.r ELSE verdict
    /\ l' = l + 1 /\ UNCHANGED <<c, pc, stack, assume>>
Done == /\ l >= 1 /\ pc = Len(Case.cmds) + 1 /\ (l = Len(Case.ev) + 1 \/ bad # "")
        /\ PrintT(ToJson([id |-> Case.id, bad |-> bad]))
        /\ l' = 0 /\ UNCHANGED <<c, pc, stack, assume, verdict, bad>>
Next == DoAssert \/ DoPush \/ DoPop \/ DoReset \/ DoCheck \/ DoCheckA \/ Silent \/ Answer \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
