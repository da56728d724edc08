---------------------------- MODULE TransformGen ----------------------------
(* Scripts given to the transformer.  MODE selects the region:                *)
(*  full  every construct, awkward names (T01, T02)                           *)
(*  lits  literals as arguments of string functions (T03)                     *)
(*  chars ranges, digits, unusual characters (T04)                            *)
(*  rel   overlapping literals and chains of variables (T05)                  *)
(*  sat   the two decidable fragments (T06)                                   *)
(*  lex   lexicographic comparisons in some contexts (T08)                    *)
(*  wit   scripts with a planted model (T10, T13)                              *)
(*  glob  histories of scripts over shared literals (T07)                      *)
(*  sub   anything the parser accepts (T11)                                   *)
(*  exa   exhaustive: all sets of up to K short literals x function patterns  *)
EXTENDS StrGen, StrSem, Json, IOUtils
Mode == IOEnv.MODE
N    == atoi(IOEnv.N)
S0   == atoi(IOEnv.SEED)
VARIABLES id, cmds, k

\* ------------------------------------------------------------------ pieces
Alphas == << <<97,98>>, <<97,98,99,58>>, <<97,98,48,49>>, <<97,65,122,90,48,57>>, <<47,45,46,120>>, <<97>>, <<104,116,58,47,46>> >>
Odd == <<32, 33, 35, 36, 37, 38, 39, 40, 91, 93, 94, 126, 92, 123, 125, 96, 59, 124, 48, 57, 97, 122>>
Word(s, al, lo, hi) == [j \in 1..Range2(Mix(s, 1), lo, hi) |-> Elem(Mix(s, 2 + j), al)]
\* the j-th literal is fresh, or a piece or a combination of earlier ones
RECURSIVE Pool(_,_,_,_)
Pool(s, al, n, q) ==
    IF n = 0 THEN q
    ELSE LET t == Mix(s, n)
             r == Pick(t, 10)
             p == IF Len(q) = 0 THEN <<>> ELSE Elem(Mix(t, 1), q)
             p2 == IF Len(q) = 0 THEN <<>> ELSE Elem(Mix(t, 2), q)
             w == IF Len(q) = 0 \/ r < 4 THEN Word(Mix(t, 3), al, IF Chance(Mix(t, 4), 8) THEN 0 ELSE 1, 4)
                  ELSE IF r = 4 /\ Len(p) > 1 THEN SubSeq(p, 2, Len(p))
                  ELSE IF r = 5 /\ Len(p) > 1 THEN SubSeq(p, 1, Len(p) - 1)
                  ELSE IF r = 6 THEN p \o Word(Mix(t, 3), al, 1, 2)
                  ELSE IF r = 7 THEN Word(Mix(t, 3), al, 1, 2) \o p
                  ELSE IF r = 8 /\ Len(p) + Len(p2) < 9 THEN p \o p2
                  ELSE Word(Mix(t, 3), al, 1, 5)
         IN Pool(s, al, n - 1, Append(q, w))
LitPool(s) == Pool(Mix(s, 1), Elem(Mix(s, 2), Alphas), Range2(Mix(s, 3), 1, 5), <<>>)

RangeSets == << <<>>, << <<97,122>> >>, << <<48,57>> >>, << <<65,90>> >>, << <<97,122>>, <<48,57>> >>, << <<65,90>>, <<97,122>>, <<48,57>> >>,
   << <<98,100>> >>, << <<98,100>>, <<102,104>> >>, << <<97,99>>, <<48,57>> >>, << <<122,97>> >>, << <<97,97>> >>, << <<35,47>> >>, << <<48,57>>, <<65,70>> >> >>
RangeOps(q) == [j \in 1..Len(q) |-> Op("re.range", "R", <<"r" \o ToString(2*j), "r" \o ToString(2*j+1)>>)]
Fixed(q) == [r \in {"r" \o ToString(j) : j \in 2..(2*Len(q)+1)} |->
                LET j == CHOOSE j \in 2..(2*Len(q)+1) : r = "r" \o ToString(j) IN Str(<<q[j \div 2][(j % 2) + 1]>>)]
NoOp(q, fs) == SelectSeq(q, LAMBDA o : ~(IsSym(o.f) /\ o.f.t \in fs))
Cx(s, ops, rs, vS, lits) ==
    [ops |-> ops \o RangeOps(rs), vS |-> vS, vI |-> <<"n">>, vB |-> <<"p">>, vR |-> <<"re.all", "re.none", "re.allchar">>,
     lits |-> lits, chars |-> <<97>>, nums |-> <<0, 1, 2, 3, 7, 12>>, leafp |-> 30, lets |-> 0, fixed |-> Fixed(rs)]
LegacyR == SubSeq(LegacyConv, 1, 4)
RegOps == NoOp(ReOps, {"re.range"})
DeclS(v) == App("declare-const", <<Sym(v), Sym("String")>>)
DeclF(v, so) == App("declare-fun", <<Sym(v), Ls(<<>>), Sym(so)>>)
Asrt(t) == App("assert", <<t>>)
CheckSat == App("check-sat", <<>>)

\* a selection of operators, so that contexts with few functions are frequent
Sel(s, q) == SelectSeq(q, LAMBDA o : Chance(Mix(s, 7 + Len(o.a) * 31 + (IF IsSym(o.f) THEN 1 ELSE 5)), 60))
SomeOps(s, q) == IF Chance(s, 40) THEN q ELSE
    LET idx == {j \in 1..Len(q) : Chance(Mix(s, 100 + j), 35)} IN
    IF idx = {} THEN q ELSE [j \in 1..Cardinality(idx) |-> q[CHOOSE x \in idx : Cardinality({y \in idx : y < x}) = j - 1]]

PlainStr == NoOp(StrOps, {"str.<", "str.<="})
PlainOps(s) == CoreOps \o EqOps \o SomeOps(Mix(s, 1), PlainStr) \o SomeOps(Mix(s, 2), RegOps) \o ModernConv \o
               (IF Chance(Mix(s, 3), 40) THEN ArithOps \o IntEq ELSE <<>>)
Script(s, cx, lo, hi, d) == [j \in 1..Range2(Mix(s, 11), lo, hi) |-> Asrt(GenT(Mix(s, 200 + j), 1 + Pick(Mix(s, 300 + j), d), "B", cx))]

\* ------------------------------------------------------------------ full
SafeIte == <<Op("ite","S",<<"P","S","S">>), Op("ite","B",<<"B","B","B">>), Op("ite","I",<<"P","I","I">>)>>
NamePools == << <<"x","y","z","n","p","f","g">>, <<"a1","a0","a3","a2","a5","a4","a6">>, <<"new_var0","new_var1","a0","new_var2","p","new_var","new_varx">>,
   <<"x y","A","a10","a01","a","aa0","b">>, <<"a2","a1","a0","x","y","a3","a7">>, <<"new_var3","x","a1","n","new_var0","f1","g1">> >>
FullCx(s, nm, rs) ==
    [Cx(s, CoreOps \o EqOps \o SafeIte \o SafeIte \o StrOps \o RegOps \o ModernConv \o ArithOps \o IntEq
        \o <<Op(nm[6], "S", <<"V", "I">>), Op(nm[7], "B", <<"V">>)>>, rs, <<nm[1], nm[2], nm[3]>>, LitPool(Mix(s, 5)))
     EXCEPT !.vI = <<nm[4]>>, !.vB = <<nm[5]>>, !.lets = IF Chance(Mix(s, 6), 40) THEN -15 ELSE 0]
FullDecl(nm, j) ==
    CASE j = 1 -> DeclS(nm[1]) [] j = 2 -> DeclF(nm[2], "String") [] j = 3 -> DeclS(nm[3])
      [] j = 4 -> DeclF(nm[4], "Int") [] j = 5 -> App("declare-const", <<Sym(nm[5]), Sym("Bool")>>)
      [] j = 6 -> App("declare-fun", <<Sym(nm[6]), Ls(<<Sym("String"), Sym("Int")>>), Sym("String")>>)
      [] j = 7 -> App("declare-fun", <<Sym(nm[7]), Ls(<<Sym("String")>>), Sym("Bool")>>)
FullCmd(s, cx, j) ==
    LET r == Pick(s, 20) IN
    CASE r \in 0..9 -> Asrt(GenT(Mix(s,1), 1 + Pick(Mix(s,2), 4), "B", cx))
      [] r = 10 -> App("set-info", <<Sym(":source"), Str(Elem(Mix(s,3), cx.lits))>>)
      [] r = 11 -> App("set-option", <<Sym(":produce-models"), Sym("true")>>)
      [] r = 12 -> App("define-fun", <<Sym("d" \o ToString(j)), Ls(<<Ls(<<Sym("q1"), Sym("String")>>)>>), Sym("Bool"),
                        GenT(Mix(s,1), 3, "B", [cx EXCEPT !.vS = @ \o <<"q1", "q1">>])>>)
      [] r = 13 -> App("get-value", <<Ls(<<GenT(Mix(s,1), 2, "S", cx), GenT(Mix(s,5), 2, "B", cx)>>)>>)
      [] r = 14 -> App("push", <<Num(1)>>)
      [] r = 15 -> App("declare-const", <<Sym("late" \o ToString(j)), Sym(Elem(Mix(s,4), <<"String", "Int", "Bool">>))>>)
      [] r = 16 -> App("check-sat-assuming", <<Ls(<<Sym(cx.vB[1]), App("not", <<Sym(cx.vB[1])>>)>>)>>)
      [] r = 17 -> App("echo", <<Str(Elem(Mix(s,3), cx.lits))>>)
      [] r = 18 -> Asrt(Ls(<<Sym(Elem(Mix(s,6), <<"forall","exists">>)), Ls(<<Ls(<<Sym("q2"), Sym("String")>>), Ls(<<Sym("q3"), Sym("Int")>>)>>),
                        GenT(Mix(s,1), 3, "B", [cx EXCEPT !.vS = @ \o <<"q2", "q2">>, !.vI = @ \o <<"q3">>])>>))
      [] r = 19 -> CheckSat
\* some commands twice or three times in a row
RECURSIVE Repeat(_,_)
Repeat(s, q) == IF q = <<>> THEN <<>>
                ELSE LET h == Head(q)
                         n == IF Head1(h) \in {"declare-const", "define-fun", "set-option"} \/ Chance(Mix(s, Len(q)), 80) THEN 1 ELSE Range2(Mix(s, 50 + Len(q)), 2, 3)
                     IN [j \in 1..n |-> h] \o Repeat(s, Tail(q))
Full(s) ==
    LET nm == Elem(Mix(s, 21), NamePools)
        cx == FullCx(s, nm, Elem(Mix(s, 22), RangeSets))
        perm == Pick(Mix(s, 23), 7)
        decls == [j \in 1..7 |-> FullDecl(nm, 1 + ((j + perm) % 7))]
        pre == IF Chance(Mix(s, 24), 50) THEN <<App("set-logic", <<Sym("QF_SLIA")>>)>> ELSE <<>>
        body == [j \in 1..Range2(Mix(s, 25), 1, 8) |-> FullCmd(Mix(s, 400 + j), cx, j)]
        again == Repeat(Mix(s, 26), body)
        n == Len(SelectSeq(again, LAMBDA c : Head1(c) = "push"))
    IN pre \o decls \o again \o (IF Chance(Mix(s, 27), 50) THEN [j \in 1..n |-> App("pop", <<Num(1)>>)] ELSE <<>>)

\* the same names declared again, at other sorts and in another order, after their scope is popped
Push == App("push", <<Num(1)>>)
Pop == App("pop", <<Num(1)>>)
Again(s) ==
    LET nm == Elem(Mix(s, 21), NamePools)
        cx == FullCx(s, nm, <<>>)
        one(t) == LET perm == Pick(Mix(t, 1), 7)
                      nn == IF Chance(Mix(t, 2), 50) THEN nm ELSE <<nm[3], nm[1], nm[2], nm[5], nm[4], nm[7], nm[6]>>
                      c2 == FullCx(t, nn, <<>>)
                      body == SelectSeq([j \in 1..Range2(Mix(t, 3), 1, 4) |-> FullCmd(Mix(t, 400 + j), c2, j)],
                                        LAMBDA c : Head1(c) \notin {"declare-const", "push", "set-info", "set-option", "define-fun"})
                  IN <<Push>> \o [j \in 1..7 |-> FullDecl(nn, 1 + ((j + perm) % 7))] \o body \o <<Pop>>
        mid(t) == IF Chance(t, 40) THEN <<DeclS("o" \o ToString(Pick(t, 1000)))>> ELSE <<>>
    IN one(Mix(s, 1)) \o mid(Mix(s, 2)) \o one(Mix(s, 3)) \o mid(Mix(s, 4)) \o (IF Chance(Mix(s, 5), 50) THEN one(Mix(s, 6)) ELSE <<>>)

\* ------------------------------------------------------------------ sub: anything goes (T11)
SubCx(s, nm, rs) ==
    [Cx(s, CoreOps \o EqOps \o IteOps \o StrOps \o RegOps \o ModernConv \o LegacyR \o ArithOps \o IntEq
        \o <<Op(nm[6], "S", <<"S", "I">>), Op(nm[7], "B", <<"S">>), Op("distinct", "B", <<"I", "I", "I">>), Op("+", "I", <<"I", "I", "I">>)>>,
        rs, <<nm[1], nm[2], nm[3]>>, LitPool(Mix(s, 5)))
     EXCEPT !.vI = <<nm[4]>>, !.vB = <<nm[5]>>, !.lets = IF Chance(Mix(s, 6), 60) THEN 15 ELSE 0]
\* wrap a term in a binder that may shadow a declared name, or repeat it
SubWrap(s, nm, cx, t) ==
    LET r == Pick(s, 8)
        v == Elem(Mix(s, 1), <<nm[1], nm[2], nm[4], nm[5], "v0", "v1", "q">>)
    IN CASE r = 0 -> Ls(<<Sym(Elem(Mix(s, 2), <<"forall", "exists">>)), Ls(<<Ls(<<Sym(v), Sym("String")>>), Ls(<<Sym("q9"), Sym("Int")>>)>>), t>>)
         [] r = 1 -> Ls(<<Sym("let"), Ls(<<Ls(<<Sym(v), GenT(Mix(s, 3), 2, "S", cx)>>), Ls(<<Sym("q8"), GenT(Mix(s, 4), 2, "B", cx)>>)>>), t>>)
         [] r = 2 -> App("and", <<t, t>>)
         [] r = 3 -> App("or", <<App("not", <<t>>), t, App("and", <<t, Sym(nm[5])>>)>>)
         [] r = 4 -> App("=", <<GenT(Mix(s, 3), 2, "S", cx), GenT(Mix(s, 3), 2, "S", cx)>>)
         [] r = 5 -> App("and", <<Sym(nm[5]), Ls(<<Sym("exists"), Ls(<<Ls(<<Sym(nm[5]), Sym("Bool")>>)>>), App("or", <<Sym(nm[5]), t>>)>>)>>)
         [] OTHER -> t
SubCmd(s, nm, cx, j) ==
    LET r == Pick(s, 16) IN
    IF r \in 0..9 THEN Asrt(SubWrap(Mix(s, 70), nm, cx, SubWrap(Mix(s, 71), nm, cx, GenT(Mix(s,1), 1 + Pick(Mix(s,2), 5), "B", cx))))
    ELSE IF r = 10 THEN Asrt(Sym(Elem(Mix(s, 1), <<"true", "false", nm[5]>>)))
    ELSE IF r = 11 THEN App("define-fun", <<Sym("e" \o ToString(j)), Ls(<<>>), Sym("String"), GenT(Mix(s,1), 3, "S", cx)>>)
    ELSE FullCmd(Mix(s, 72), cx, j)
Sub(s) ==
    LET nm == Elem(Mix(s, 21), NamePools \o << <<"v0","v1","v2","v3","v4","v5","v6">>, <<"v1","v0","x","v10","p","f","v2">> >>)
        cx == SubCx(s, nm, Elem(Mix(s, 22), RangeSets))
        decls == [j \in 1..7 |-> FullDecl(nm, j)]
        body == [j \in 1..Range2(Mix(s, 25), 1, 6) |-> SubCmd(Mix(s, 400 + j), nm, cx, j)]
    IN decls \o body

\* ------------------------------------------------------------------ ranges next to literals
RangeAsserts(s, n, rs, vs, q) ==
    IF rs = <<>> \/ Len(q) = 0 THEN <<>>
    ELSE [j \in 1..n |->
        LET t == Mix(s, j)
            R(i) == LET r == Elem(Mix(t, i), rs) IN App("re.range", <<Str(<<r[1]>>), Str(<<r[2]>>)>>)
            v == Sym(Elem(Mix(t, 3), vs))
            w == Sym(Elem(Mix(t, 4), vs))
            l == Str(Elem(Mix(t, 5), q))
            toR(y) == App("str.to_re", <<y>>)
            in(y, r) == App("str.in_re", <<y, r>>)
            k0 == Pick(Mix(t, 6), 9)
            f == CASE k0 = 0 -> in(v, App("re.*", <<R(1)>>))
                   [] k0 = 1 -> in(v, App("re.+", <<App("re.union", <<R(1), toR(l)>>)>>))
                   [] k0 = 2 -> in(v, App("re.++", <<toR(l), App("re.opt", <<R(1)>>)>>))
                   [] k0 = 3 -> in(App("str.++", <<v, l>>), App("re.*", <<App("re.union", <<R(1), R(2)>>)>>))
                   [] k0 = 4 -> App("not", <<in(v, App("re.comp", <<R(1)>>))>>)
                   [] k0 = 5 -> App("=", <<v, App("str.replace_re", <<w, R(1), l>>)>>)
                   [] k0 = 6 -> in(l, App("re.+", <<R(1)>>))
                   [] k0 = 7 -> App("and", <<in(v, R(1)), App("not", <<App("=", <<v, l>>)>>)>>)
                   [] OTHER -> App("and", <<in(v, App("re.*", <<R(1)>>)), App("or", <<App("=", <<v, l>>), App("=", <<w, v>>)>>)>>)
        IN Asrt(f)]
NR(s) == Pick(Mix(s, 44), 4)

\* ------------------------------------------------------------------ lits, chars, rel
Decl4 == <<DeclS("x"), DeclF("y", "String"), DeclS("z"), DeclF("n", "Int"), App("declare-const", <<Sym("p"), Sym("Bool")>>)>>
Lits(s) == Decl4 \o Script(s, Cx(s, PlainOps(Mix(s, 31)), Elem(Mix(s, 32), RangeSets), <<"x", "y", "z">>, LitPool(Mix(s, 5))), 1, 5, 3)
           \o RangeAsserts(Mix(s, 45), NR(s), Elem(Mix(s, 32), RangeSets), <<"x", "y", "z">>, LitPool(Mix(s, 5))) \o <<CheckSat>>
Min2(a, b) == IF a <= b THEN a ELSE b
Max2x(a, b) == IF a >= b THEN a ELSE b
CharPool(s, al) == IF Len(al) > 24 /\ Chance(Mix(s, 8), 40) THEN [j \in 1..2 |-> Word(Mix(s, 10 + j), al, 10, 40)] ELSE [j \in 1..Range2(Mix(s, 1), 1, 5) |-> Word(Mix(s, 10 + j), al, 1, 6)]
\* all characters of some ranges
RECURSIVE Letters(_)
Letters(rs) == IF rs = <<>> THEN <<>> ELSE LET a == Min2(Head(rs)[1], Head(rs)[2])
                                               b == Max2x(Head(rs)[1], Head(rs)[2]) IN [j \in 1..(b - a + 1) |-> a + j - 1] \o Letters(Tail(rs))
Chars(s) ==
    LET rs == Elem(Mix(s, 32), RangeSets)
        al == IF rs # <<>> /\ Chance(Mix(s, 39), 40) THEN Letters(rs) \o (IF Chance(Mix(s, 40), 50) THEN <<>> ELSE Odd) ELSE IF Chance(Mix(s, 33), 50) THEN Odd ELSE IF Chance(Mix(s, 34), 50) THEN [j \in 1..90 |-> 34 + j] ELSE <<97, 98, 99, 122, 48, 53, 57, 65, 90, 47, 58, 33>>
        ops == CoreOps \o EqOps \o SomeOps(Mix(s, 35), NoOp(PlainStr, {"str.is_digit", "str.to_code", "str.from_code"})) \o RegOps
               \o (IF Chance(Mix(s, 36), 40) THEN <<Op("str.is_digit", "B", <<"S">>)>> ELSE <<>>)
               \o (IF Chance(Mix(s, 37), 30) THEN ModernConv ELSE SubSeq(ModernConv, 1, 2))
    IN Decl4 \o Script(s, Cx(s, ops, rs, <<"x", "y", "z">>, CharPool(Mix(s, 38), al)), 2, 6, 3)
       \o RangeAsserts(Mix(s, 45), NR(s), rs, <<"x", "y", "z">>, CharPool(Mix(s, 38), al)) \o <<CheckSat>>
Rel1(s, sr) ==
    LET rs == IF Chance(Mix(sr, 30), 70) THEN <<>> ELSE Elem(Mix(sr, 32), RangeSets)
        ops == CoreOps \o EqOps \o SomeOps(Mix(s, 31), NoOp(PlainStr, {"str.to_code", "str.from_code"}))
               \o (IF Chance(Mix(s, 35), 40) THEN RegOps \o SubSeq(ModernConv, 1, 2) ELSE <<>>)
               \o (IF Chance(Mix(s, 36), 30) THEN ModernConv ELSE <<>>)
    IN Decl4 \o Script(s, Cx(s, ops, rs, <<"x", "y", "z">>, LitPool(Mix(s, 5))), 1, 5, 3)
       \o RangeAsserts(Mix(s, 45), NR(s), rs, <<"x", "y", "z">>, LitPool(Mix(s, 5))) \o <<CheckSat>>

\* two scopes whose variables have the same names
Rel(s) == IF Chance(Mix(s, 78), 90) THEN Rel1(s, s)
          ELSE LET cut(q) == SubSeq(q, 1, Len(q) - 1) IN
               <<Push>> \o cut(Rel1(Mix(s, 79), s)) \o <<Pop, Push>> \o cut(Rel1(Mix(s, 80), s)) \o <<CheckSat, Pop>>

\* ------------------------------------------------------------------ sat
AtomA(s, vs, q) ==
    LET x == Sym(Elem(Mix(s,1), vs))
        y == Sym(Elem(Mix(s,2), vs))
        l == Str(Elem(Mix(s,3), q))
        m == Str(Elem(Mix(s,4), q))
        r == Pick(s, 16)
    IN CASE r \in 0..1 -> App("=", <<x, l>>) [] r = 2 -> App("=", <<l, x>>) [] r \in 3..4 -> App("=", <<x, y>>)
         [] r = 5 -> App("distinct", <<x, l, y>>) [] r = 6 -> App("distinct", <<x, l>>)
         [] r \in 7..8 -> App("str.contains", <<x, l>>) [] r = 9 -> App("str.contains", <<l, x>>)
         [] r \in 10..11 -> App("str.prefixof", <<l, x>>) [] r = 12 -> App("str.prefixof", <<x, l>>)
         [] r \in 13..14 -> App("str.suffixof", <<l, x>>) [] r = 15 -> App("str.suffixof", <<x, m>>)
AtomE(s, vs, q) ==
    LET x == Sym(Elem(Mix(s,1), vs))
        y == Sym(Elem(Mix(s,2), vs))
        l == Str(Elem(Mix(s,3), q))
        m == Str(Elem(Mix(s,4), q))
        r == Pick(s, 8)
    IN CASE r \in 0..1 -> App("=", <<x, l>>) [] r = 2 -> App("=", <<l, x>>) [] r \in 3..4 -> App("=", <<x, y>>)
         [] r = 5 -> App("distinct", <<x, l, y>>) [] r = 6 -> App("distinct", <<x, l, m>>) [] r = 7 -> App("=", <<x, y, l>>)
AtomB(s, vs, q) ==
    LET x == Sym(Elem(Mix(s,1), vs))
        y == Sym(Elem(Mix(s,2), vs))
        l == Str(Elem(Mix(s,3), q))
        len(v) == App("str.len", <<v>>)
        num == Num(Pick(Mix(s,4), 6))
        cmp == Elem(Mix(s,5), <<"=", "<", "<=", ">", ">=", "=">>)
        r == Pick(s, 10)
    IN CASE r \in 0..2 -> App("=", <<x, l>>) [] r = 3 -> App("=", <<x, y>>) [] r = 4 -> App("distinct", <<x, l, y>>)
         [] r \in 5..6 -> App(cmp, <<len(x), num>>) [] r = 7 -> App(cmp, <<num, len(y)>>)
         [] r = 8 -> App(cmp, <<len(x), len(y)>>) [] r = 9 -> App(cmp, <<len(x), len(l)>>)
\* conversions
AtomD(s, vs, q) ==
    LET x == Sym(Elem(Mix(s,1), vs))
        y == Sym(Elem(Mix(s,2), vs))
        l == Str(Elem(Mix(s,3), q))
        num == IF Chance(Mix(s,6), 12) THEN App("-", <<Num(1)>>) ELSE Num(Elem(Mix(s,4), <<0, 1, 2, 7, 10, 12, 101>>))
        cmp == Elem(Mix(s,5), <<"=", "=", "<", "<=", ">", ">=">>)
        ti(v) == App("str.to_int", <<v>>)
        r == Pick(s, 16)
    IN CASE r \in 0..3 -> App("=", <<x, l>>) [] r = 4 -> App("=", <<x, y>>) [] r = 5 -> App("distinct", <<x, l, y>>)
         [] r \in 6..7 -> App("str.is_digit", <<x>>) [] r \in 8..9 -> App(cmp, <<ti(x), num>>)
         [] r = 10 -> App(cmp, <<ti(x), ti(l)>>) [] r \in 11..12 -> App(cmp, <<ti(x), ti(y)>>)
         [] r = 13 -> App("=", <<x, App("str.from_int", <<num>>)>>)
         [] r = 14 -> App("str.is_digit", <<l>>) [] r = 15 -> App(cmp, <<num, ti(l)>>)
RECURSIVE FormS(_,_,_,_,_)
FormS(s, d, fam, vs, q) ==
    LET r == Pick(Mix(s,1), 8)
        At(t) == CASE fam = "A" -> AtomA(t, vs, q) [] fam = "B" -> AtomB(t, vs, q) [] fam = "E" -> AtomE(t, vs, q) [] fam = "D" -> AtomD(t, vs, q)
    IN IF d = 0 \/ r < 2 THEN At(Mix(s,2))
       ELSE CASE r \in 2..3 -> App("or", <<FormS(Mix(s,3), d-1, fam, vs, q), FormS(Mix(s,4), d-1, fam, vs, q)>>)
              [] r = 4 -> App("and", <<FormS(Mix(s,3), d-1, fam, vs, q), FormS(Mix(s,4), d-1, fam, vs, q)>>)
              [] r \in 5..6 -> App("not", <<FormS(Mix(s,3), d-1, fam, vs, q)>>)
              [] r = 7 -> App(Elem(Mix(s,5), <<"=>", "xor">>), <<FormS(Mix(s,3), d-1, fam, vs, q), FormS(Mix(s,4), d-1, fam, vs, q)>>)
SatS(s) ==
    LET fam == Elem(Mix(s, 41), <<"A", "A", "A", "B", "B", "E", "D", "D">>)
        vs == IF fam = "E" THEN <<"x", "y", "z">> ELSE <<"x", "y">>
        q == Pool(Mix(s, 1), IF fam = "D" THEN Elem(Mix(s, 2), << <<48,49,50,97>>, <<48,49>>, <<55,49,50,48>>, <<97,98,48,49,50>> >>) ELSE Elem(Mix(s, 2), Alphas),
                  Range2(Mix(s, 3), 1, 4), <<>>)
        dn == [j \in 1..Len(vs) |-> DeclS(vs[j])]
    IN dn \o [j \in 1..Range2(Mix(s, 42), 1, 4) |-> Asrt(FormS(Mix(s, 200 + j), Pick(Mix(s, 300 + j), 3), fam, vs, q))] \o <<CheckSat>>

\* ------------------------------------------------------------------ wit: scripts with a planted model
WitDecls == Decl4 \o <<DeclS("u")>>
Extra == <<35, 36, 37, 60, 61, 62, 113, 48, 57, 97, 98, 122, 32>>
Witness(s, q) ==
    LET w(t) == IF Chance(Mix(t, 1), 45) THEN Elem(Mix(t, 2), q)
                ELSE IF Chance(Mix(t, 3), 40) /\ Len(Elem(Mix(t, 2), q)) < 5 THEN Elem(Mix(t, 2), q) \o Word(Mix(t, 4), Extra, 0, 3)
                ELSE IF Chance(Mix(t, 5), 50) THEN Word(Mix(t, 6), Extra, 0, 2) \o Elem(Mix(t, 2), q)
                ELSE Word(Mix(t, 7), Extra, 0, 5)
    IN << [n |-> "x", v |-> Str(w(Mix(s, 1)))], [n |-> "y", v |-> Str(w(Mix(s, 2)))], [n |-> "z", v |-> Str(w(Mix(s, 3)))],
          [n |-> "n", v |-> Num(Pick(Mix(s, 4), 7) - 1)], [n |-> "p", v |-> [b |-> Pick(Mix(s, 5), 2)]], [n |-> "u", v |-> Str(w(Mix(s, 6)))] >>
WVal(v) == IF IsStr(v) THEN v.s ELSE IF IsNum(v) THEN v.i ELSE v.b = 1
WEnv(m) == [nm \in {m[j].n : j \in 1..Len(m)} |-> WVal(m[CHOOSE j \in 1..Len(m) : m[j].n = nm].v)]
WitQ(s) == LET rs == Elem(Mix(s, 32), RangeSets) IN
           IF Chance(Mix(s, 33), 30) THEN CharPool(Mix(s, 38), <<97, 98, 99, 122, 48, 53, 57, 65, 90, 47, 58, 33>>)
           ELSE IF Chance(Mix(s, 30), 25) THEN CharPool(Mix(s, 38), <<117, 123, 49, 102, 125, 56, 48, 97, 99>>) ELSE LitPool(Mix(s, 5))
Wit(s) ==
    LET rs == Elem(Mix(s, 32), RangeSets)
        q == WitQ(s)
        env == WEnv(Witness(Mix(s, 39), q))
        ops == CoreOps \o EqOps \o SafeIte \o SomeOps(Mix(s, 35), NoOp(PlainStr, {"str.to_code", "str.from_code"})) \o SomeOps(Mix(s, 36), RegOps)
               \o (IF Chance(Mix(s, 37), 50) THEN ModernConv ELSE SubSeq(ModernConv, 1, 2)) \o (IF Chance(Mix(s, 34), 50) THEN ArithOps \o IntEq ELSE <<>>)
        cx == [Cx(s, ops, rs, <<"x", "y", "z">>, q) EXCEPT !.lets = IF Chance(Mix(s, 6), 25) THEN -15 ELSE 0]
        raw == Script(s, cx, 1, 5, 4) \o RangeAsserts(Mix(s, 45), NR(s), rs, <<"x", "y", "z">>, q)
        pin == [j \in 1..Len(raw) |-> IF Chance(Mix(s, 500 + j), 12)
                  THEN LET v == Elem(Mix(s, 600 + j), <<"x", "y", "z">>) IN App("=", <<Sym(v), Str(env[v])>>) ELSE raw[j].a[2]]
    IN WitDecls \o [j \in 1..Len(raw) |-> Asrt(IF Ev(pin[j], env) THEN pin[j] ELSE App("not", <<pin[j]>>))] \o <<CheckSat>>

\* ------------------------------------------------------------------ glob: histories of scripts over shared literals
GlobScript(s, vs, rs, q) ==
    LET ops == (IF Chance(Mix(s, 33), 40) THEN CoreOps ELSE <<>>) \o EqOps \o SomeOps(Mix(s, 31), NoOp(PlainStr, {"str.to_code", "str.from_code"}))
               \o (IF rs # <<>> \/ Chance(Mix(s, 35), 30) THEN SomeOps(Mix(s, 34), RegOps) \o SubSeq(ModernConv, 1, 2) ELSE <<>>)
               \o (IF Chance(Mix(s, 36), 20) THEN ModernConv ELSE <<>>)
        n == Range2(Mix(s, 37), 1, Len(q))
        off == Pick(Mix(s, 38), Len(q))
        sub == [j \in 1..n |-> q[1 + ((j + off) % Len(q))]]
    IN [j \in 1..3 |-> DeclS(vs[j])] \o <<DeclF("n", "Int"), App("declare-const", <<Sym("p"), Sym("Bool")>>)>>
       \o Script(s, Cx(s, ops, rs, vs, sub), 1, 4, 2) \o RangeAsserts(Mix(s, 45), 1 + NR(s), rs, vs, sub) \o <<CheckSat>>
Glob(s) ==
    LET q == LitPool(Mix(s, 5)) \o (IF Chance(Mix(s, 6), 30) THEN << <<122, 122>>, <<65>> >> ELSE <<>>)
        R == Elem(Mix(s, 7), << << <<97,122>>, <<65,90>> >>, << <<48,57>>, <<97,122>> >>, << <<98,100>>, <<102,104>>, <<65,90>> >>, << <<97,99>>, <<48,57>>, <<65,70>> >> >>)
        rs(j) == IF Chance(Mix(s, 30), 45) THEN <<>> ELSE SelectSeq(R, LAMBDA r : Chance(Mix(Mix(s, 90 + j), r[1]), 60))
        vs(j) == IF Chance(Mix(s, 50 + j), 70) THEN <<"x", "y", "z">> ELSE <<"w", "x", "a0">>
        one(j) == GlobScript(Mix(s, 60 + j), vs(j), rs(j), q)
    IN [j \in 1..Range2(Mix(s, 9), 2, 4) |-> IF j > 1 /\ Chance(Mix(s, 70 + j), 20) THEN one(j - 1)
                                             ELSE IF j > 2 /\ Chance(Mix(s, 80 + j), 20) THEN one(1) ELSE one(j)]

\* ------------------------------------------------------------------ lex
LexOps(s) == CoreOps \o EqOps \o SomeOps(s, PlainStr) \o ModernConv
Lex(s) ==
    LET q == LitPool(Mix(s, 5))
        q2 == [j \in 1..Len(q) |-> <<90>> \o q[j]]
        cx1 == Cx(s, LexOps(Mix(s, 51)), <<>>, <<"x", "y">>, q)
        cx2 == Cx(s, LexOps(Mix(s, 52)), <<>>, <<"u", "w">>, q2)
        lt(t, vs, qq) == LET a == IF Chance(Mix(t,1), 50) THEN Sym(Elem(Mix(t,2), vs)) ELSE Str(Elem(Mix(t,2), qq))
                             b == IF Chance(Mix(t,3), 70) THEN Sym(Elem(Mix(t,4), vs)) ELSE Str(Elem(Mix(t,4), qq))
                         IN Asrt(App(Elem(Mix(t,5), <<"str.<", "str.<=">>), IF Chance(Mix(t,6), 50) THEN <<a, b>> ELSE <<b, a>>))
        r == Pick(Mix(s, 53), 5)
        l1 == IF r \in {1, 3} THEN <<lt(Mix(s, 54), <<"x", "y">>, q)>> ELSE <<>>
        l2 == IF r \in {2, 3} THEN <<lt(Mix(s, 55), <<"u", "w">>, q2)>> ELSE <<>>
        chain == IF r = 4 THEN <<Asrt(App("str.<", <<Sym("x"), Sym("y")>>)), Asrt(App("=", <<Sym("y"), Sym("z")>>)), Asrt(App("=", <<Sym("z"), Str(q[1])>>))>> ELSE <<>>
    IN Decl4 \o <<DeclS("u"), DeclS("w")>> \o Script(Mix(s, 56), cx1, 0, 2, 2) \o l1 \o Script(Mix(s, 57), cx2, 0, 2, 2) \o l2 \o chain \o <<CheckSat>>

Gen(c) == LET s == Seed0(S0, c) IN
    CASE Mode = "full" -> (IF Chance(Mix(s, 77), 15) THEN Again(s) ELSE Full(s)) [] Mode = "lits" -> Lits(s) [] Mode = "chars" -> Chars(s)
      [] Mode = "rel" -> Rel(s) [] Mode = "sat" -> SatS(s) [] Mode = "lex" -> Lex(s) [] Mode = "sub" -> Sub(s) [] Mode = "wit" -> Wit(s) [] Mode = "glob" -> Glob(s)

\* ------------------------------------------------------------------ exhaustive small scope
MaxLen == atoi(IOEnv.LEN)
RECURSIVE Words(_,_)
Words(al, n) == IF n = 0 THEN {<<>>} ELSE LET W == Words(al, n - 1) IN W \cup {Append(w, a) : w \in {v \in W : Len(v) = n - 1}, a \in al}
WordSeq == LET W == Words({97, 98}, MaxLen) \ {<<>>} IN
           [j \in 1..Cardinality(W) |-> CHOOSE w \in W : Cardinality({v \in W : Len(v) < Len(w) \/ (Len(v) = Len(w) /\ \E i \in 1..Len(v) : SubSeq(v,1,i-1) = SubSeq(w,1,i-1) /\ v[i] < w[i])}) = j - 1]
Patterns == 10
Pat(j, i, l, q) ==
    LET x == Sym("x")
        y == Sym("y")
        L == Str(l)
    IN CASE j = 1 -> App("=", <<x, L>>)
         [] j = 2 -> App("str.contains", <<x, L>>)
         [] j = 3 -> App("str.prefixof", <<L, x>>)
         [] j = 4 -> IF i = 1 THEN App("str.prefixof", <<L, x>>) ELSE IF i = 2 THEN App("str.suffixof", <<L, x>>) ELSE App("str.contains", <<x, L>>)
         [] j = 5 -> IF i = 1 THEN App("=", <<App("str.++", <<L, x>>), y>>) ELSE App("=", <<y, L>>)
         [] j = 6 -> IF i = 1 THEN App("=", <<App("str.len", <<x>>), Num(Len(l))>>) ELSE App("not", <<App("=", <<x, L>>)>>)
         [] j = 7 -> IF i = 1 THEN App("=", <<App("str.replace", <<x, L, Str(q[Len(q)])>>), y>>) ELSE App("=", <<y, L>>)
         [] j = 8 -> App("str.in_re", <<x, App("re.++", <<App("str.to_re", <<L>>), Sym("re.all")>>)>>)
         [] j = 9 -> App("str.contains", <<L, IF i = 1 THEN x ELSE y>>)
         [] j = 10 -> IF i = 1 THEN App("=", <<App("str.indexof", <<x, L, Num(0)>>), Num(1)>>) ELSE App("=", <<x, L>>)
ExaScript(j, q) == <<DeclS("x"), DeclS("y")>> \o [i \in 1..Len(q) |-> Asrt(Pat(j, i, q[i], q))]
                   \o (IF j \in {5, 7, 9} THEN <<>> ELSE <<Asrt(App("=", <<Sym("x"), Sym("y")>>))>>) \o <<CheckSat>>

VARIABLES lits
Init == /\ k = 0
        /\ IF Mode = "exa" THEN id \in 1..Patterns /\ lits = <<>> ELSE id \in 1..N /\ lits = <<>>
        /\ cmds = <<>>
Emit(c) == PrintT(ToJson(c))
Generate == /\ Mode # "exa" /\ k = 0
            /\ cmds' = Gen(id) /\ k' = 1 /\ UNCHANGED <<id, lits>>
            /\ Emit(IF Mode = "wit" THEN LET s == Seed0(S0, id) IN [in |-> cmds', id |-> id, wit |-> Witness(Mix(s, 39), WitQ(s))]
                    ELSE [in |-> cmds', id |-> id])
\* one more literal, in every order of insertion
AddLit == /\ Mode = "exa" /\ k < N
          /\ \E w \in 1..Len(WordSeq) : (\A i \in 1..Len(lits) : lits[i] # w) /\ lits' = Append(lits, w)
          /\ k' = k + 1 /\ UNCHANGED id
          /\ cmds' = ExaScript(id, [i \in 1..Len(lits') |-> WordSeq[lits'[i]]])
          /\ Emit([in |-> cmds'])
Next == Generate \/ AddLit
Spec == Init /\ [][Next]_<<id, cmds, k, lits>>
=============================================================================
