------------------------------ MODULE EagerGen ------------------------------
(* Behaviours = sessions with the eager solver: declarations, assertions and *)
(* (family "hist") assertion-stack commands.  Families fix what is known     *)
(* about the verdict: a witness interpretation (wit) that satisfies every    *)
(* assertion by construction, or a finite domain (dom) to decide by search.  *)
EXTENDS Sx, Rng, Json, IOUtils
B == INSTANCE BigInt
IOf(n) == n
IAdd(a, b) == a + b
IMul(a, b) == a * b
ILe(a, b) == a <= b
IDiv(a, b) == IF b > 0 THEN a \div b ELSE IF b < 0 THEN -(a \div (-b)) ELSE 0
IMod(a, b) == IF b = 0 THEN a ELSE a % (IF b < 0 THEN -b ELSE b)
M == INSTANCE EagerSem WITH NOf <- IOf, NAdd <- IAdd, NMul <- IMul, NLe <- ILe, NDiv <- IDiv, NMod <- IMod

Fam == IOEnv.FAM
N   == atoi(IOEnv.N)
S0  == atoi(IOEnv.SEED)
VARIABLES id, done

\* ------------------------------------------------------------ term grammar
\* cx = [iv, bv: names; uf: BOOLEAN; consts: ints; lets: percent; odd: percent]
K(s, cx) == IntT(Elem(s, cx.consts))
\* products are of a numeral and a name that is not let-bound (no let binds "y")
Decl1(cx) == SelectSeq(cx.iv, LAMBDA n : n \in {"y", "z", "w", "v", "u"} \/ (n = "x" /\ \A k \in 2..Len(cx.iv) : cx.iv[k] # "x"))
RECURSIVE GI(_,_,_), GB(_,_,_)
GIs(s, d, cx, n) == [j \in 1..n |-> GI(Mix(s, 30 + j), d, cx)]
GI(s, d, cx) ==
    LET r == Pick(s, 100)  s1 == Mix(s, 1)  s2 == Mix(s, 2) IN
    IF d = 0 \/ r < 28 THEN (IF Chance(s1, 70) THEN Sym(Elem(s2, cx.iv)) ELSE K(s2, cx))
    ELSE IF r < 48 THEN App("+", GIs(s1, d-1, cx, 2 + Pick(s2, 2)))
    ELSE IF r < 62 THEN App("-", GIs(s1, d-1, cx, 1 + Pick(s2, 3)))
    ELSE IF r < 78 THEN (IF Decl1(cx) = <<>> THEN K(s2, cx) ELSE IF Chance(s1, 70) THEN App("*", <<K(s2, cx), Sym(Elem(s1, Decl1(cx)))>>)
                         ELSE App("*", <<Sym(Elem(s1, Decl1(cx))), K(s2, cx)>>))
    ELSE IF r < 89 THEN App("ite", <<GB(s1, d-1, cx), GI(s2, d-1, cx), GI(Mix(s, 3), d-1, cx)>>)
    ELSE IF cx.odd > 0 /\ Chance(Mix(s,4), cx.odd)
         THEN LET q == Pick(s1, 5) IN
              CASE q = 0 -> App("*", <<GI(s2, d-1, cx), GI(Mix(s,3), d-1, cx)>>)
                [] q = 1 -> App("div", <<GI(s2, d-1, cx), Num(1 + Pick(s1, 3))>>)
                [] q = 2 -> App("mod", <<GI(s2, d-1, cx), Num(1 + Pick(s1, 3))>>)
                [] q = 3 -> App("abs", <<GI(s2, d-1, cx)>>)
                [] OTHER -> App("*", <<Num(2), GI(s2, d-1, cx)>>)
    ELSE IF cx.uf THEN (IF Chance(s1, 60) THEN App("f", GIs(s2, d-1, cx, 1)) ELSE App("g", GIs(s2, d-1, cx, 2)))
    ELSE IF cx.lets > 0 /\ Chance(s1, cx.lets)
         THEN LET nm == IF Chance(s2, 25) THEN cx.iv[1] ELSE "l" \o ToString(d)
              IN  Ls(<<Sym("let"), Ls(<<Ls(<<Sym(nm), GI(Mix(s,5), d-1, cx)>>)>>),
                       GI(Mix(s,6), d-1, [cx EXCEPT !.iv = Append(Append(@, nm), nm)])>>)
    ELSE Sym(Elem(s2, cx.iv))
GAtom(s, d, cx) ==
    LET r == Pick(s, 100)  s1 == Mix(s, 1)  s2 == Mix(s, 2)
        n == IF Chance(Mix(s, 7), 75) THEN 2 ELSE IF Chance(Mix(s, 8), 75) THEN 3 ELSE 4
    IN IF r < 2 THEN Sym(Elem(s1, <<"true", "false">>))
       ELSE IF r < 15 /\ Len(cx.bv) > 0 THEN Sym(Elem(s1, cx.bv))
       ELSE IF r < 25 /\ cx.uf THEN (IF Chance(s1, 60) THEN App("P", GIs(s2, d, cx, 1))
                                     ELSE App("Q", <<GB(s1, 0, cx), GI(s2, d, cx)>>))
       ELSE App(Elem(s1, <<"<", "<=", ">", ">=", "=", "distinct", "=", "<=">>), GIs(s2, d, cx, n))
GB(s, d, cx) ==
    LET r == Pick(s, 100)  s1 == Mix(s, 11)  s2 == Mix(s, 12)  s3 == Mix(s, 13)
        three == IF Chance(s3, 25) THEN <<GB(s3, d-1, cx)>> ELSE <<>>
        three2 == IF Chance(Mix(s, 14), 15) THEN <<GAtom(Mix(s, 15), 1, cx)>> ELSE <<>>
        many == [j \in 1..(1 + Pick(s2, 3)) |-> GB(Mix(s1, 40 + j), d-1, cx)]
    IN IF d = 0 \/ r < 38 THEN GAtom(s1, IF d = 0 THEN 1 ELSE d, cx)
       ELSE IF r < 48 THEN App("not", <<GB(s1, d-1, cx)>>)
       ELSE IF r < 60 THEN App("and", many)
       ELSE IF r < 75 THEN App("or", many)
       ELSE IF r < 81 THEN App("=>", <<GB(s1, d-1, cx), GB(s2, d-1, cx)>> \o (IF Chance(s3, 20) THEN <<GB(s3, d-1, cx)>> ELSE <<>>))
       ELSE IF r < 86 THEN App("xor", <<GB(s1, d-1, cx), GB(s2, d-1, cx)>> \o three \o three2)
       ELSE IF r < 91 THEN App("=", <<GB(s1, d-1, cx), GB(s2, d-1, cx)>> \o three)
       ELSE IF r < 93 THEN App("distinct", <<GB(s1, d-1, cx), GB(s2, d-1, cx)>> \o three)
       ELSE IF r < 95 /\ cx.lets > 0
            THEN Ls(<<Sym("let"), Ls(<<Ls(<<Sym("lb"), GB(s1, d-1, cx)>>), Ls(<<Sym("li"), GI(s2, 1, cx)>>)>>),
                      GB(s3, d-1, [cx EXCEPT !.bv = Append(@, "lb"), !.iv = Append(@, "li")])>>)
       ELSE App("ite", <<GB(s1, d-1, cx), GB(s2, d-1, cx), GB(s3, d-1, cx)>>)

\* ------------------------------------------------------------ pieces of scripts
DeclC(n, sort) == App("declare-const", <<Sym(n), sort>>)
DeclF(n, args, ret) == App("declare-fun", <<Sym(n), Ls(args), ret>>)
IntS == Sym("Int")
BoolS == Sym("Bool")
BvS(w) == Ls(<<Sym("_"), Sym("BitVec"), Num(w)>>)
UFDecls == << DeclF("f", <<IntS>>, IntS), DeclF("g", <<IntS, IntS>>, IntS),
              DeclF("P", <<IntS>>, BoolS), DeclF("Q", <<BoolS, IntS>>, BoolS) >>
AssertC(t) == App("assert", <<t>>)
Asserts(q) == [k \in 1..Len(q) |-> AssertC(q[k])]
IVs == <<"x", "y", "z", "w", "v", "u">>
Sub(q, n) == SubSeq(q, 1, n)
DeclIs(s, ns) == [k \in 1..Len(ns) |-> IF Chance(Mix(s, k), 30) THEN DeclF(ns[k], <<>>, IntS) ELSE DeclC(ns[k], IntS)]
DeclBs(ns) == [k \in 1..Len(ns) |-> DeclC(ns[k], BoolS)]
Consts(s) == Elem(s, << <<0, 1, -1, 2, 3>>, <<-4, -1, 0, 1, 4, 2>>, <<1, 5, 7, -3, 13, 0>>, <<2, 0, 1>> >>)
W(n, args, body) == [n |-> n, args |-> args, body |-> body]
\* shuffle: rotate and reverse, by choices of the seed
RECURSIVE Shuffle(_,_)
Shuffle(s, q) == IF Len(q) <= 1 THEN q
                 ELSE LET k == Pick(s, Len(q)) + 1
                      IN  <<q[k]>> \o Shuffle(Mix(s, 3), SubSeq(q, 1, k-1) \o SubSeq(q, k+1, Len(q)))

\* ------------------------------------------------------------ families
Case(cmds, wit, dom) == [cmds |-> cmds, wit |-> wit, dom |-> dom]
Small(s) ==
    LET nv == 1 + Pick(Mix(s,1), 3)  nb == Pick(Mix(s,2), 2)
        cx == [iv |-> Sub(IVs, nv), bv |-> Sub(<<"p", "q">>, nb), uf |-> FALSE, consts |-> Consts(Mix(s,3)),
               lets |-> IF Chance(Mix(s,4), 30) THEN 60 ELSE 0, odd |-> 0]
        as == [k \in 1..(1 + Pick(Mix(s,5), 3)) |-> GB(Mix(s, 50 + k), 2, cx)]
    IN  Case(DeclIs(Mix(s,6), cx.iv) \o DeclBs(cx.bv) \o Asserts(as), <<>>, IF nv = 1 THEN 24 ELSE IF nv = 2 THEN 9 ELSE 5)

WitUF(s, vals) == LET v(k) == IntT(Elem(Mix(s, k), vals))  a == Sym("a") b == Sym("b") IN
    << W("f", <<"a">>, App("ite", <<App("=", <<a, v(1)>>), v(2), App("ite", <<App("<", <<a, v(3)>>), v(4), v(5)>>)>>)),
       W("g", <<"a", "b">>, App("ite", <<App("<=", <<a, b>>), v(6), App("+", <<b, v(7)>>)>>)),
       W("P", <<"a">>, App("<", <<a, v(8)>>)),
       W("Q", <<"a", "b">>, App("ite", <<a, App("<", <<b, v(9)>>), App("=", <<b, v(10)>>)>>)) >>
FunOf(wit) == LET fs == {w \in Rng1(wit) : w.args # <<>>} IN [n \in {w.n : w \in fs} |-> CHOOSE w \in fs : w.n = n]
EnvOf(wit) == LET cs == {w \in Rng1(wit) : w.args = <<>>}
                  none == [x \in {} |-> 0]
              IN [n \in {w.n : w \in cs} |-> M!Ev((CHOOSE w \in cs : w.n = n).body, none, none)]
Plant(s) ==
    LET nv == 1 + Pick(Mix(s,1), 4)  nb == Pick(Mix(s,2), 3)
        wide == Chance(Mix(s,7), 12)
        vals == IF wide THEN <<-150, 150, 73, -12, 0, 1, 128, -128>> ELSE <<-20, -7, -3, -2, -1, 0, 1, 2, 3, 5, 8, 20, 31>>
        cx == [iv |-> Sub(IVs, nv), bv |-> Sub(<<"p", "q">>, nb), uf |-> Chance(Mix(s,8), 45),
               consts |-> IF wide THEN <<0, 1, -1, 1, 70>> ELSE Consts(Mix(s,3)),
               lets |-> IF Chance(Mix(s,4), 30) THEN 60 ELSE 0, odd |-> 0]
        wit == [k \in 1..nv |-> W(IVs[k], <<>>, IntT(Elem(Mix(s, 70+k), vals)))]
               \o [k \in 1..nb |-> W(cx.bv[k], <<>>, Sym(IF Chance(Mix(s, 80+k), 50) THEN "true" ELSE "false"))]
               \o (IF cx.uf THEN WitUF(Mix(s, 9), <<-3, 0, 1, 2, 7, -20, 31>>) ELSE <<>>)
        env == EnvOf(wit)  fun == FunOf(wit)
        raw == [k \in 1..(1 + Pick(Mix(s,5), 4)) |-> GB(Mix(s, 50 + k), 2, cx)]
        as == [k \in 1..Len(raw) |-> IF M!Ev(raw[k], env, fun) THEN raw[k] ELSE App("not", <<raw[k]>>)]
        \* pin some variables to their value, so that the solution is (nearly) unique
        pins == [k \in 1..Pick(Mix(s, 6), nv + 1) |-> App("=", <<Sym(IVs[k]), wit[k].body>>)]
    IN  Case((IF cx.uf THEN UFDecls ELSE <<>>) \o DeclIs(Mix(s,6), cx.iv) \o DeclBs(cx.bv) \o Asserts(Shuffle(Mix(s, 10), as \o pins)), wit, 0)

\* uninterpreted functions applied to few different arguments
UfC(s) ==
    LET wit == << W("x", <<>>, IntT(Elem(Mix(s, 1), <<-3, 0, 1, 2, 7>>))), W("y", <<>>, IntT(Elem(Mix(s, 2), <<-3, 0, 1, 2, 7>>))),
                  W("p", <<>>, Sym(Elem(Mix(s, 3), <<"true", "false">>))) >> \o WitUF(Mix(s, 9), <<-3, 0, 1, 2, 7, 3>>)
        env == EnvOf(wit)  fun == FunOf(wit)
        x == Sym("x")  y == Sym("y")
        pool == << x, y, Num(1), x, App("f", <<x>>), App("f", <<y>>), App("+", <<x, Num(1)>>), App("f", <<App("f", <<x>>)>>), App("g", <<x, y>>) >>
        n == 2 + Pick(Mix(s, 4), 8)
        T(k) == pool[1 + (Pick(Mix(s, 10 + k), n) % 9)]
        pb(k) == Elem(Mix(s, 30 + k), << Sym("p"), Sym("true"), Sym("false"), App("P", <<T(k + 40)>>), App("<", <<T(k + 50), T(k + 60)>>) >>)
        at(k) == LET r == Pick(Mix(s, 70 + k), 8) IN
                 IF r < 3 THEN App("Q", <<pb(k), T(k)>>)
                 ELSE IF r < 5 THEN App("P", <<T(k)>>)
                 ELSE IF r = 5 THEN App(Elem(Mix(s, 80 + k), <<"=", "<", ">=">>), << App("g", <<T(k), T(k + 1)>>), App("g", <<T(k + 2), T(k + 3)>>) >>)
                 ELSE App(Elem(Mix(s, 80 + k), <<"=", "<", "distinct">>), << App("f", <<T(k)>>), T(k + 1) >>)
        fix(t) == IF M!Ev(t, env, fun) THEN t ELSE App("not", <<t>>)
        as == [k \in 1..(2 + Pick(Mix(s, 5), 4)) |-> fix(IF Chance(Mix(s, 90 + k), 80) THEN at(k) ELSE App("xor", <<at(k), at(k + 20)>>))]
    IN  Case(UFDecls \o DeclIs(Mix(s,6), <<"x", "y">>) \o DeclBs(<<"p">>) \o Asserts(as), wit, 0)

\* y rel a*x + d, in several equivalent shapes
Lin(a, x) == IF a = 1 THEN x ELSE IF a = -1 THEN App("-", <<x>>) ELSE App("*", <<IntT(a), x>>)
RelT(s, rel, y, a, x, d) ==
    LET r == Pick(s, 5)  ax == Lin(a, x) IN
    CASE r = 0 -> App(rel, <<y, App("+", <<ax, IntT(d)>>)>>)
      [] r = 1 -> App(rel, <<App("-", <<y, ax>>), IntT(d)>>)
      [] r = 2 -> App(IF rel = "=" THEN "=" ELSE IF rel = ">=" THEN "<=" ELSE "<", <<App("+", <<IntT(d), ax>>), y>>)
      [] r = 3 -> IF rel = "=" THEN App("and", <<App("<=", <<y, App("+", <<ax, IntT(d)>>)>>), App(">=", <<y, App("+", <<ax, IntT(d)>>)>>)>>)
                  ELSE App("not", <<App(IF rel = ">=" THEN "<" ELSE "<=", <<App("-", <<y, ax>>), IntT(d)>>)>>)
      [] OTHER -> IF a = 2 THEN App(rel, <<y, App("+", <<x, x, IntT(d)>>)>>)
                  ELSE App(rel, <<App("-", <<App("+", <<y, IntT(-d)>>), ax>>), Num(0)>>)
\* chain over names ns; witness bodies are terms over the preceding names (evaluated in order)
ChainF(s, ns, coefs, ds, c0) ==
    LET n == Len(ns)
        rel(k) == Elem(Mix(s, 100+k), <<"=", "=", ">=", ">">>)
        a(k) == Elem(Mix(s, 200+k), coefs)
        d(k) == Elem(Mix(s, 300+k), ds)
        first == Elem(Mix(s, 1), << App("=", <<Sym(ns[1]), c0>>), App(">=", <<Sym(ns[1]), c0>>), App("<=", <<c0, Sym(ns[1])>>),
                                    App("not", <<App("<", <<Sym(ns[1]), c0>>)>>) >>)
        body(k) == App("+", <<Lin(a(k), Sym(ns[k])), IntT(d(k) + (IF rel(k) = ">" THEN 1 ELSE 0))>>)
        wit == [k \in 1..n |-> W(ns[k], <<>>, IF k = 1 THEN c0 ELSE body(k-1))]
        as == [k \in 1..n |-> IF k = 1 THEN first ELSE RelT(Mix(s, 400+k), rel(k-1), Sym(ns[k]), a(k-1), Sym(ns[k-1]), d(k-1))]
    IN  [as |-> as, wit |-> wit, ns |-> ns]
WrapB(s, t) == LET r == Pick(s, 12) IN
    CASE r = 0 -> App("or", <<t, Sym("pf")>>) [] r = 1 -> App("=>", <<Sym("pt"), t>>) [] r = 2 -> App("ite", <<Sym("pt"), t, Sym("pf")>>)
      [] r = 3 -> App("and", <<t, Sym("pt")>>) [] r = 4 -> App("xor", <<t, Sym("pf")>>) [] OTHER -> t
PinB == << App("not", <<Sym("pf")>>), Sym("pt") >>
WitB == << W("pt", <<>>, Sym("true")), W("pf", <<>>, Sym("false")) >>
Names(p, n) == [k \in 1..n |-> p \o ToString(k)]
ChainSpec(s, p, big) ==
    LET n == IF big THEN 3 + Pick(Mix(s, 21), 24) ELSE 2 + Pick(Mix(s, 21), 5)
        fam == Pick(Mix(s, 22), 4)
    IN ChainF(Mix(s, 23), Names(p, n),
              IF fam = 0 THEN <<1>> ELSE IF fam = 1 THEN <<1, 2, -1>> ELSE IF fam = 2 THEN <<2, 2, 1>> ELSE <<1, 1, 1, 3>>,
              IF Chance(Mix(s, 24), 50) THEN <<0, 1, -1, 2>> ELSE <<5, 13, -7, 1, 0>>,
              IntT(Elem(Mix(s, 25), <<0, 1, -1, 3, 7, 50, -19>>)))
SepSpec(s, p) ==
    LET n == 2 + Pick(Mix(s, 31), 5)
        ns == Names(p, n)
        w == [k \in 1..n |-> Elem(Mix(s, 40+k), <<0, 1, 2, 5, -5, 17, 40, -33, 90, 100>>)]
        m == n + Pick(Mix(s, 32), 3)
        edge(k) == LET i == IF k < n THEN k ELSE 1 + Pick(Mix(s, 500+k), n)
                       j == IF k < n THEN k + 1 ELSE 1 + Pick(Mix(s, 600+k), n)
                       slack == Elem(Mix(s, 700+k), <<0, 0, 0, 1, 3>>)
                       x == Sym(ns[i])  y == Sym(ns[j])  dd == w[i] - w[j]
                       r == Pick(Mix(s, 800+k), 6)
                   IN  CASE r = 0 -> App(">=", <<App("-", <<x, y>>), IntT(dd - slack)>>)
                         [] r = 1 -> App("<=", <<App("-", <<x, y>>), IntT(dd + slack)>>)
                         [] r = 2 -> App("<", <<x, App("+", <<y, IntT(dd + slack + 1)>>)>>)
                         [] r = 3 -> App("=", <<x, App("+", <<y, IntT(dd)>>)>>)
                         [] r = 4 -> App("not", <<App(">", <<x, App("+", <<y, IntT(dd + slack)>>)>>)>>)
                         [] OTHER -> IF dd > 0 THEN App(">", <<x, y>>) ELSE IF dd < 0 THEN App("<", <<x, y>>) ELSE App("=", <<x, y>>)
    IN  [as |-> [k \in 1..m |-> edge(k)], wit |-> [k \in 1..n |-> W(ns[k], <<>>, IntT(w[k]))], ns |-> ns]
Wrapped(s, parts) ==
    LET as == FlattenS([k \in 1..Len(parts) |-> [j \in 1..Len(parts[k].as) |-> WrapB(Mix(s, 900 + 31*k + j), parts[k].as[j])]])
        ns == FlattenS([k \in 1..Len(parts) |-> parts[k].ns])
        wit == FlattenS([k \in 1..Len(parts) |-> parts[k].wit])
    IN  Case(DeclIs(Mix(s, 6), Shuffle(Mix(s, 8), ns)) \o DeclBs(<<"pt", "pf">>) \o Asserts(Shuffle(Mix(s, 10), as \o PinB)), wit \o WitB, 0)
ChainC(s) == Wrapped(s, <<ChainSpec(s, "x", FALSE)>>)
\* large coefficients and small constants: the solution grows with the coefficients
SteepC(s) == LET n == 4 + Pick(Mix(s, 21), 4) IN
    Wrapped(s, <<ChainF(Mix(s, 23), Names("x", n), Elem(Mix(s, 22), << <<8>>, <<8, 9>>, <<5, 11>>, <<13>>, <<7, -8>>, <<4>>, <<16, 15>> >>),
                        <<0, 0, 1>>, IntT(Elem(Mix(s, 25), <<1, 1, 0, -1>>)))>>)
BigC(s)   == LET c == Wrapped(s, <<ChainSpec(s, "x", TRUE)>>) IN c
SepC(s)   == Wrapped(s, <<SepSpec(s, "x")>>)
PartC(s)  == Wrapped(s, [k \in 1..(2 + Pick(Mix(s, 3), 2)) |->
                LET p == Elem(<<k, k>>, <<"a", "b", "c">>) IN
                IF Chance(Mix(s, 60+k), 50) THEN ChainSpec(Mix(s, 61+k), Names("c", k)[k], FALSE) ELSE SepSpec(Mix(s, 61+k), Names("d", k)[k])])
\* one large coefficient: c * x compared with c * k, so that x is k
CoefC(s) ==
    LET c == Elem(Mix(s,1), IF Chance(Mix(s,2), 20) THEN <<255, 256, 257, 260>> ELSE <<31, 32, 33, 63, 64, 65, 100, 127, 128, 129>>)
        k == Elem(Mix(s,3), <<0, 1, -1, 2, 3, 5>>)
        m == Elem(Mix(s,4), <<1, 1, -1>>)
        x == Sym("x")
        cx == IF Chance(Mix(s,5), 50) THEN App("*", <<IntT(m * c), x>>) ELSE App("*", <<x, IntT(m * c)>>)
        v == m * c * k
        as == CASE Pick(Mix(s,6), 6) = 0 -> << App("=", <<cx, IntT(v)>>) >>
                [] Pick(Mix(s,6), 6) = 1 -> << App("<", <<cx, IntT(v + 1)>>), App(IF m > 0 THEN ">=" ELSE "<=", <<x, IntT(k)>>) >>
                [] Pick(Mix(s,6), 6) = 2 -> << App("<", <<cx, IntT(v + c)>>), App(">", <<cx, IntT(v - c)>>) >>
                [] Pick(Mix(s,6), 6) = 3 -> << App("=", <<App("+", <<cx, Num(7)>>), App("+", <<App("*", <<IntT(m * c - 2), x>>), IntT(7 + 2 * k)>>)>>) >>
                [] Pick(Mix(s,6), 6) = 4 -> << App("not", <<App("distinct", <<cx, IntT(v)>>)>>) >>
                [] OTHER -> << App(">=", <<IntT(v), cx>>), App("<=", <<App("-", <<IntT(v), cx>>), IntT(c - 1)>>) >>
    IN  Case(<<DeclC("x", IntS)>> \o Asserts(Shuffle(Mix(s, 10), as)), << W("x", <<>>, IntT(k)) >>, 0)
\* wide literals
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN B!BOf(1) ELSE IF n >= 16 THEN B!BMul(B!BOf(65536), Pow2(n - 16)) ELSE B!BMul(B!BOf(2), Pow2(n - 1))
Wide(s) ==
    LET m == B!BMul(B!BOf(Elem(Mix(s,1), <<1000000007, 999999937, 2147483647, 65536>>)), B!BOf(Elem(Mix(s,2), <<1, 1000003, 65536, 2147483647>>)))
        mm == CASE Pick(Mix(s,3), 6) \in {0, 1} -> B!BMul(m, B!BOf(Elem(Mix(s,4), <<1000003, 4294967, 2>>)))
                [] Pick(Mix(s,3), 6) = 2 -> B!BMul(m, B!BMul(m, m))
                \* around the powers of two at which machine integers end
                [] Pick(Mix(s,3), 6) = 3 -> B!BAdd(Pow2(Elem(Mix(s,4), <<31, 32, 63, 64, 127, 128, 200>>)), B!BOf(Elem(Mix(s,11), <<0, -1, 1>>)))
                [] OTHER -> m
        m2 == mm
        c == [L |-> m2]
        lo == [L |-> B!BAdd(m2, B!BOf(-(1 + Pick(Mix(s,5), 5))))]
        neg == Chance(Mix(s,6), 40)
        x == Sym("x") y == Sym("y")
        N1(t) == IF neg THEN App("-", <<t>>) ELSE t
        as == Elem(Mix(s,7), <<
           << App("=", <<x, N1(c)>>) >>,
           << App(IF neg THEN "<" ELSE ">", <<x, N1(lo)>>), App("=", <<y, App("+", <<x, Num(1)>>)>>) >>,
           << App("<=", <<App("-", <<x, y>>), N1(c)>>), App(">=", <<App("-", <<x, y>>), N1(c)>>) >>,
           << App("=", <<App("+", <<x, y>>), N1(c)>>), App("=", <<x, y>>) >> >>)
        wit == Elem(Mix(s,7), <<
           << W("x", <<>>, N1(c)), W("y", <<>>, Num(0)) >>,
           << W("x", <<>>, N1(c)), W("y", <<>>, App("+", <<N1(c), Num(1)>>)) >>,
           << W("x", <<>>, N1(c)), W("y", <<>>, Num(0)) >>,
           <<>> >>)
    IN  Case(<<DeclC("x", IntS), DeclC("y", IntS)>> \o Asserts(Shuffle(Mix(s, 10), as)), wit, 0)

\* bit-vectors
GBv(s, w, ns) == IF Chance(s, 60) THEN Sym(Elem(Mix(s,1), ns)) ELSE LET v == [j \in 1..w |-> Pick(Mix(s, 2+j), 2)]
         IN IF w % 4 = 0 /\ Chance(Mix(s, 99), 50) THEN [b |-> v, h |-> 1] ELSE [b |-> v]
RECURSIVE GVB(_,_,_,_)
GVB(s, d, w, ns) ==
    LET r == Pick(s, 10)  s1 == Mix(s,1) s2 == Mix(s,2) IN
    IF d = 0 \/ r < 4 THEN
        IF Chance(Mix(s,6), 12) THEN Sym("p")
        ELSE LET a == GBv(s1, w, ns)  b == GBv(s2, w, ns)
             IN IF IsSym(a) \/ IsSym(b) THEN App("bvule", <<a, b>>) ELSE App("bvule", <<Sym(ns[1]), b>>)
    ELSE IF r < 6 THEN App("not", <<GVB(s1, d-1, w, ns)>>)
    ELSE IF r < 8 THEN App("and", <<GVB(s1, d-1, w, ns), GVB(s2, d-1, w, ns)>>)
    ELSE IF r < 9 THEN App("or", <<GVB(s1, d-1, w, ns), GVB(s2, d-1, w, ns)>>)
    ELSE App(Elem(s1, <<"xor", "=>", "=">>), <<GVB(s1, d-1, w, ns), GVB(s2, d-1, w, ns)>>)
BvC(s) ==
    LET w == Elem(Mix(s,1), <<1, 2, 3, 4, 1, 2, 3, 4, 4, 8>>)  n == IF w = 8 THEN 1 ELSE 1 + Pick(Mix(s,2), IF w > 3 THEN 2 ELSE 3)
        ns == Sub(<<"c", "d", "e">>, n)
        as == [k \in 1..(1 + Pick(Mix(s,5), 4)) |-> GVB(Mix(s, 50 + k), 2, w, ns)]
    IN  Case([k \in 1..n |-> DeclC(ns[k], BvS(w))] \o <<DeclC("p", BoolS)>> \o Asserts(as), <<>>, 1)

\* exhaustive pairs of two-variable atoms
EnumAtom == [a : {-1, 0, 1, 2}, b : {-1, 0, 1}, c : {-2, 0, 3}, r : {"<=", "=", "distinct"}]
AtomT(e) == App(e.r, <<App("+", <<App("*", <<IntT(e.a), Sym("x")>>), App("*", <<IntT(e.b), Sym("y")>>)>>), IntT(e.c)>>)

\* histories
HistCmd(s, cx) ==
    LET r == Pick(s, 20) IN
    CASE r < 7 -> AssertC(GB(Mix(s,1), 1, cx))
      [] r \in 7..9 -> App("push", <<Num(1 + Pick(Mix(s,2), 2) \div 1)>>)
      [] r \in 10..12 -> App("pop", <<Num(1)>>)
      [] r = 13 -> App("reset-assertions", <<>>)
      [] r = 14 -> App("check-sat-assuming", <<Ls(<<Elem(Mix(s,3), <<Sym("p"), App("not", <<Sym("p")>>)>>)>>)>>)
      [] r = 15 -> App("check-sat", <<>>)
      [] r = 16 -> App("set-info", <<Sym(":status"), Sym("sat")>>)
      [] r = 17 -> App("get-model", <<>>)
      [] r = 18 -> App("set-option", <<Sym(":produce-models"), Sym("true")>>)
      [] OTHER -> App("echo", <<Str(<<104, 105>>)>>)
\* only pops that have a level to pop
RECURSIVE Legal(_,_,_)
Legal(q, lv, acc) ==
    IF q = <<>> THEN acc
    ELSE LET c == Head(q) h == Head1(c) IN
         IF h = "pop" THEN (IF lv > 0 THEN Legal(Tail(q), lv - 1, Append(acc, c)) ELSE Legal(Tail(q), lv, acc))
         ELSE IF h = "push" THEN Legal(Tail(q), lv + c.a[2].i, Append(acc, c))
         ELSE IF h = "reset-assertions" THEN Legal(Tail(q), 0, Append(acc, c))
         ELSE Legal(Tail(q), lv, Append(acc, c))
Hist(s) ==
    LET cx == [iv |-> <<"x", "y">>, bv |-> <<"p">>, uf |-> FALSE, consts |-> <<0, 1, 2, -1>>, lets |-> 0, odd |-> 0]
        ds == <<DeclC("x", IntS), DeclC("y", IntS), DeclC("p", BoolS)>>
        body == Legal([k \in 1..(3 + Pick(Mix(s,1), 7)) |-> HistCmd(Mix(s, 20 + k), cx)], 0, <<>>)
        rst == IF Chance(Mix(s,2), 10) THEN <<App("reset", <<>>)>> \o ds ELSE <<>>
        last == IF Chance(Mix(s,3), 15) THEN App("check-sat-assuming", <<Ls(<<Elem(Mix(s,4), <<Sym("p"), App("not", <<Sym("p")>>)>>)>>)>>)
                ELSE App("check-sat", <<>>)
    IN  Case(ds \o <<AssertC(GB(Mix(s,5), 1, cx))>> \o rst \o body \o <<AssertC(GB(Mix(s,6), 0, cx)), last>>, <<>>, 9)
Odd(s) ==
    LET nv == 1 + Pick(Mix(s,1), 2)
        cx == [iv |-> Sub(IVs, nv), bv |-> <<"p">>, uf |-> FALSE, consts |-> Consts(Mix(s,3)), lets |-> 0, odd |-> 100]
        as == [k \in 1..(1 + Pick(Mix(s,5), 3)) |-> GB(Mix(s, 50 + k), 2, cx)]
        q == Pick(Mix(s, 9), 4)
        extra == IF q = 0 THEN <<App("define-fun", <<Sym("h"), Ls(<<Ls(<<Sym("a"), IntS>>)>>), IntS, App("+", <<Sym("a"), Num(1)>>)>>),
                                  AssertC(App("<", <<App("h", <<Sym("x")>>), Num(2)>>))>> ELSE <<>>
    IN  Case(DeclIs(Mix(s,6), cx.iv) \o DeclBs(cx.bv) \o Asserts(as) \o extra, <<>>, IF nv = 1 THEN 24 ELSE 9)

\* a problem and a copy of it over other constants: partitions with equal statistics
RECURSIVE Rename(_,_)
Rename(x, ns) == IF IsList(x) THEN [a |-> [k \in 1..Len(x.a) |-> Rename(x.a[k], ns)]]
                 ELSE IF IsSym(x) /\ x.t \in ns THEN Sym(x.t \o "_2") ELSE x
IsDecl(x) == Head1(x) \in {"declare-const", "declare-fun"}
Twin(s) ==
    LET b == CASE Pick(Mix(s, 71), 3) = 0 -> ChainC(Mix(s, 72)) [] Pick(Mix(s, 71), 3) = 1 -> SepC(Mix(s, 72)) [] OTHER -> Small(Mix(s, 72))
        ns == {x.a[2].t : x \in {y \in Rng1(b.cmds) : IsDecl(y)}}
        cp == [k \in 1..Len(b.cmds) |-> Rename(b.cmds[k], ns)]
        all == IF Chance(Mix(s, 73), 50) THEN SelectSeq(b.cmds, IsDecl) \o SelectSeq(cp, IsDecl) \o SelectSeq(cp, LAMBDA x : ~IsDecl(x)) \o SelectSeq(b.cmds, LAMBDA x : ~IsDecl(x))
               ELSE b.cmds \o cp
    IN  Case(all, b.wit \o [k \in 1..Len(b.wit) |-> [b.wit[k] EXCEPT !.n = IF @ \in ns THEN @ \o "_2" ELSE @, !.body = Rename(@, ns)]], 0)
Gen(s) == LET cc == CASE Fam = "small" -> Small(s) [] Fam = "plant" -> Plant(s) [] Fam = "chain" -> ChainC(s)
               [] Fam = "big" -> BigC(s) [] Fam = "sep" -> SepC(s) [] Fam = "part" -> PartC(s) [] Fam = "wide" -> Wide(s)
               [] Fam = "bv" -> BvC(s) [] Fam = "uf" -> UfC(s) [] Fam = "hist" -> Hist(s) [] Fam = "odd" -> Odd(s)
               [] Fam = "twin" -> Twin(s) [] Fam = "steep" -> SteepC(s)
               [] Fam = "coef" -> CoefC(s)
          IN IF Fam \in {"hist"} THEN cc ELSE
             [cc EXCEPT !.cmds = (IF Chance(Mix(s, 97), 50) THEN <<App("set-logic", <<Sym("QF_UFLIA")>>)>> ELSE <<>>) \o @
                        \o (IF Chance(Mix(s, 98), 80) THEN <<App("check-sat", <<>>)>> ELSE <<>>)]
Emit(i, c) == PrintT(ToJson([id |-> i, fam |-> Fam, cmds |-> c.cmds, wit |-> c.wit, dom |-> c.dom]))
PairCase(e, g) == Case(<<DeclC("x", IntS), DeclC("y", IntS)>> \o Asserts(<<AtomT(e), AtomT(g)>>), <<>>, 12)

Init == done = FALSE /\ (IF Fam = "pairs" THEN id \in EnumAtom ELSE id \in 1..N)
Random == /\ Fam # "pairs" /\ ~done /\ done' = TRUE /\ UNCHANGED id
          /\ Emit(id, Gen(Seed0(S0, id)))
\* N selects one pair in N
Hash(e, g) == (e.a * 7 + e.b * 31 + e.c * 131 + g.a * 17 + g.b * 61 + g.c * 199 + (IF e.r = g.r THEN 0 ELSE 3) + S0 + 1000)
Pairs == /\ Fam = "pairs" /\ ~done /\ done' = TRUE /\ UNCHANGED id
         /\ \A g \in EnumAtom : (Hash(id, g) % N = 0) => Emit(0, PairCase(id, g))
Next == Random \/ Pairs
Spec == Init /\ [][Next]_<<id, done>>
=============================================================================
