------------------------------ MODULE EagerSem ------------------------------
(* Meaning of the scripts given to the eager arithmetic solver: SMT-LIB     *)
(* semantics of Bool, Int, BitVec constants and uninterpreted functions.    *)
(* The integers are a parameter: machine integers of TLC, or BigInt.        *)
EXTENDS Sx
CONSTANTS NOf(_), NAdd(_,_), NMul(_,_), NLe(_,_), NDiv(_,_), NMod(_,_)
NNeg(a)   == NMul(NOf(-1), a)
NSub(a,b) == NAdd(a, NNeg(b))

IsBV(x)  == "b" \in DOMAIN x          \* a field h: written in hexadecimal
IsBig(x) == DOMAIN x = {"L"}
SortName(x) == IF IsSym(x) THEN x.t
               ELSE IF IsList(x) /\ Len(x.a) = 3 /\ IsSymT(x.a[2], "BitVec") /\ IsNum(x.a[3]) THEN "BV" \o ToString(x.a[3].i)
               ELSE "?"

\* ---------------------------------------------------------------- evaluation
\* env: values of constants, formal parameters and let-bound names
\* fun: [name -> [args: formal names, body: term]] of uninterpreted functions
RECURSIVE BvLe(_,_)
BvLe(p, q) == IF p = <<>> THEN TRUE
              ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE BvLe(Tail(p), Tail(q))
RECURSIVE FoldAdd(_), Ev(_,_,_)
FoldAdd(q) == IF Len(q) = 1 THEN q[1] ELSE NAdd(q[1], FoldAdd(Tail(q)))
RECURSIVE FoldMul(_)
FoldMul(q) == IF Len(q) = 1 THEN q[1] ELSE NMul(q[1], FoldMul(Tail(q)))
RECURSIVE FoldXor(_)
FoldXor(q) == IF Len(q) = 1 THEN q[1] ELSE (q[1] # FoldXor(Tail(q)))
RECURSIVE FoldImp(_)
FoldImp(q) == IF Len(q) = 1 THEN q[1] ELSE (q[1] => FoldImp(Tail(q)))
Chain(R(_,_), q) == \A k \in 1..Len(q)-1 : R(q[k], q[k+1])
NLt(a,b) == NLe(a,b) /\ a # b
NGe(a,b) == NLe(b,a)
NGt(a,b) == NLt(b,a)
Eq(a,b)  == a = b

Ev(x, env, fun) ==
    IF IsSym(x) THEN (IF x.t = "true" THEN TRUE ELSE IF x.t = "false" THEN FALSE ELSE env[x.t])
    ELSE IF IsNum(x) THEN NOf(x.i)
    ELSE IF IsBV(x) THEN x.b
    ELSE IF IsBig(x) THEN x.L
    ELSE LET f == Head1(x) IN
      IF f = "let" THEN
           LET bs == x.a[2].a
               new == [n \in {bs[k].a[1].t : k \in 1..Len(bs)} |->
                        Ev((CHOOSE b \in Rng1(bs) : b.a[1].t = n).a[2], env, fun)]
           IN  Ev(x.a[3], new @@ env, fun)
      ELSE IF f = "and" THEN \A k \in 2..Len(x.a) : Ev(x.a[k], env, fun)
      ELSE IF f = "or" THEN \E k \in 2..Len(x.a) : Ev(x.a[k], env, fun)
      ELSE IF f = "not" THEN ~Ev(x.a[2], env, fun)
      ELSE IF f = "ite" THEN IF Ev(x.a[2], env, fun) THEN Ev(x.a[3], env, fun) ELSE Ev(x.a[4], env, fun)
      ELSE LET v == [k \in 1..Len(x.a)-1 |-> Ev(x.a[k+1], env, fun)] IN
           CASE f = "=>" -> FoldImp(v)
             [] f = "xor" -> FoldXor(v)
             [] f = "=" -> Chain(Eq, v)
             [] f = "distinct" -> \A i, j \in 1..Len(v) : i < j => v[i] # v[j]
             [] f = "<=" -> Chain(NLe, v)
             [] f = "<"  -> Chain(NLt, v)
             [] f = ">=" -> Chain(NGe, v)
             [] f = ">"  -> Chain(NGt, v)
             [] f = "+" -> FoldAdd(v)
             [] f = "-" -> IF Len(v) = 1 THEN NNeg(v[1]) ELSE NSub(v[1], FoldAdd(Tail(v)))
             [] f = "*" -> FoldMul(v)
             [] f = "div" -> NDiv(v[1], v[2])
             [] f = "mod" -> NMod(v[1], v[2])
             [] f = "abs" -> IF NLe(NOf(0), v[1]) THEN v[1] ELSE NNeg(v[1])
             [] f = "bvule" -> BvLe(v[1], v[2])
             [] OTHER -> LET d == fun[f] IN
                  Ev(d.body, [n \in Rng1(d.args) |-> v[CHOOSE k \in 1..Len(d.args) : d.args[k] = n]] @@ env, fun)

\* ---------------------------------------------------------------- sorts
\* senv: sorts of names; sig: [name -> [args: sorts, ret: sort]]; "bad" if ill-sorted
RECURSIVE SortOf(_,_,_)
SortOf(x, senv, sig) ==
    IF IsSym(x) THEN (IF x.t \in {"true","false"} THEN "Bool" ELSE IF x.t \in DOMAIN senv THEN senv[x.t] ELSE "bad")
    ELSE IF IsNum(x) \/ IsBig(x) THEN "Int"
    ELSE IF IsBV(x) THEN "BV" \o ToString(Len(x.b))
    ELSE IF ~IsApp(x) THEN "bad"
    ELSE LET f == Head1(x) IN
      IF f = "let" THEN
        IF Len(x.a) = 3 /\ IsList(x.a[2]) /\ \A k \in 1..Len(x.a[2].a) : IsList(x.a[2].a[k]) /\ Len(x.a[2].a[k].a) = 2
        THEN LET bs == x.a[2].a IN SortOf(x.a[3], [n \in {bs[k].a[1].t : k \in 1..Len(bs)} |->
                        SortOf((CHOOSE b \in Rng1(bs) : b.a[1].t = n).a[2], senv, sig)] @@ senv, sig)
        ELSE "bad"
      ELSE
      LET s == [k \in 1..Len(x.a)-1 |-> SortOf(x.a[k+1], senv, sig)]
          all(t) == Len(s) >= 1 /\ \A k \in 1..Len(s) : s[k] = t
      IN CASE f \in {"and","or","xor","=>"} -> IF all("Bool") THEN "Bool" ELSE "bad"
           [] f = "not" -> IF all("Bool") /\ Len(s) = 1 THEN "Bool" ELSE "bad"
           [] f \in {"=","distinct"} -> IF Len(s) >= 2 /\ s[1] # "bad" /\ all(s[1]) THEN "Bool" ELSE "bad"
           [] f = "ite" -> IF Len(s) = 3 /\ s[1] = "Bool" /\ s[2] = s[3] THEN s[2] ELSE "bad"
           [] f \in {"<","<=",">",">="} -> IF Len(s) >= 2 /\ all("Int") THEN "Bool" ELSE "bad"
           [] f \in {"+","-","*"} -> IF all("Int") THEN "Int" ELSE "bad"
           [] f = "bvule" -> IF Len(s) = 2 /\ s[1] = s[2] /\ s[1] \notin {"bad","Int","Bool"} THEN "Bool" ELSE "bad"
           [] f \in DOMAIN sig -> IF s = sig[f].args THEN sig[f].ret ELSE "bad"
           [] OTHER -> "bad"

\* ---------------------------------------------------------------- declarations
Decls(cmds) == SelectSeq(cmds, LAMBDA c : Head1(c) \in {"declare-const", "declare-fun"})
DSig(c) == IF Head1(c) = "declare-const" THEN [n |-> c.a[2].t, args |-> <<>>, ret |-> SortName(c.a[3])]
           ELSE [n |-> c.a[2].t, args |-> [k \in 1..Len(c.a[3].a) |-> SortName(c.a[3].a[k])], ret |-> SortName(c.a[4])]
Sig(cmds) == LET ds == Decls(cmds) ns == {ds[k].a[2].t : k \in 1..Len(ds)}
             IN  [n \in ns |-> DSig(CHOOSE d \in Rng1(ds) : d.a[2].t = n)]
Consts(sig) == {n \in DOMAIN sig : sig[n].args = <<>>}
Funs(sig)   == DOMAIN sig \ Consts(sig)
BVWidth(sort) == CHOOSE w \in 1..64 : sort = "BV" \o ToString(w)
Default(sort, k) ==   \* several arbitrary values of a sort
    IF sort = "Int" THEN NOf((<<0, 1, -7, 23>>)[k])
    ELSE IF sort = "Bool" THEN k % 2 = 0
    ELSE LET w == BVWidth(sort)
         IN  [j \in 1..w |-> (IF k % 2 = 0 THEN 1 ELSE 0)]
DefaultT(sort, k) ==
    IF sort = "Int" THEN Num((<<0, 1, 7, 23>>)[k]) ELSE IF sort = "Bool" THEN Sym(IF k % 2 = 0 THEN "true" ELSE "false") ELSE [b |-> Default(sort, k)]
=============================================================================
