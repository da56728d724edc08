----------------------------- MODULE FeaturesGen -----------------------------
(* Lists of benchmarks.  Each entry is a script (terms of any nesting, repeated  *)
(* and shared sub-terms, every operation, terms outside assertions), or a file   *)
(* that is missing, a directory, or not a script.                               *)
EXTENDS TransformGen
AllOps == CoreOps \o EqOps \o IteOps \o StrOps \o ReOps \o ModernConv \o LegacyR \o ArithOps \o IntEq
          \o << Ix(Idx(<<Sym("re.loop"), Num(0), Num(0)>>), "R", <<"R">>), Ix(Idx(<<Sym("re.^"), Num(3)>>), "R", <<"R">>), Op("str.<", "B", <<"S","S","S">>),
                Op("str.<=", "B", <<"S","S","S">>), Op("re.union", "R", <<"R","R","R">>), Op("re.diff", "R", <<"R","R","R">>), Op("f", "S", <<"S","I">>) >>
FCx(s) == [ops |-> SomeOps(Mix(s, 1), AllOps), vS |-> <<"x", "y">>, vI |-> <<"n">>, vB |-> <<"p">>, vR |-> <<"re.all", "re.none", "re.allchar">>,
           lits |-> << <<>>, <<97>>, <<98, 99>> >>, chars |-> <<97, 122>>, nums |-> <<0, 1, 5>>, leafp |-> 15, lets |-> IF Chance(Mix(s, 2), 50) THEN 20 ELSE 0]
RECURSIVE Double(_,_)
Double(t, n) == IF n = 0 THEN t ELSE LET u == Double(t, n - 1) IN App(IF n % 2 = 0 THEN "and" ELSE "or", <<u, u>>)
Bind(s, cx, t) ==
    LET r == Pick(s, 6) IN
    CASE r = 0 -> Ls(<<Sym(Elem(Mix(s, 2), <<"forall", "exists">>)), Ls(<<Ls(<<Sym("x"), Sym("String")>>)>>), t>>)
      [] r = 1 -> Ls(<<Sym("let"), Ls(<<Ls(<<Sym("q7"), GenT(Mix(s, 3), 3, "S", cx)>>), Ls(<<Sym("q8"), GenT(Mix(s, 4), 2, "B", cx)>>)>>), App("and", <<t, Sym("q8")>>)>>)
      [] r = 2 -> Double(t, Range2(Mix(s, 5), 1, 4))
      [] r = 3 -> App("=", <<App("str.len", <<Str(<<97>>)>>), App("ite", <<t, Num(1), GenT(Mix(s, 6), 2, "I", cx)>>)>>)
      [] r = 4 -> Ls(<<Sym("!"), t, Sym(":named"), Sym("nm" \o ToString(Pick(s, 1000)))>>)
      [] OTHER -> t
FCmd(s, cx, j) ==
    LET r == Pick(s, 12) IN
    CASE r = 0 -> App("define-fun", <<Sym("d" \o ToString(j)), Ls(<<Ls(<<Sym("x"), Sym("String")>>)>>), Sym("Bool"), GenT(Mix(s, 1), 3, "B", cx)>>)
      [] r = 1 -> App("get-value", <<Ls(<<GenT(Mix(s, 1), 2, "S", cx)>>)>>)
      [] r = 2 -> App("push", <<Num(1)>>)
      [] r = 3 -> App("pop", <<Num(1)>>)
      [] r = 4 -> CheckSat
      [] OTHER -> Asrt(Bind(Mix(s, 3), cx, Bind(Mix(s, 4), cx, GenT(Mix(s, 1), 1 + Pick(Mix(s, 2), 5), "B", cx))))
FScript(s) ==
    IF Chance(s, 6) THEN <<>> ELSE
    LET cx == FCx(s) IN
    <<DeclS("x"), DeclF("y", "String"), DeclF("n", "Int"), App("declare-const", <<Sym("p"), Sym("Bool")>>),
      App("declare-fun", <<Sym("f"), Ls(<<Sym("String"), Sym("Int")>>), Sym("String")>>)>> \o [j \in 1..Range2(Mix(s, 3), 0, 5) |-> FCmd(Mix(s, 10 + j), cx, j)]
Entry(s, badp) == IF Chance(Mix(s, 9), badp) THEN [kind |-> Elem(Mix(s, 8), <<"missing", "directory", "junk", "cut", "empty name">>), in |-> FScript(s)]
                  ELSE [kind |-> "ok", in |-> FScript(s)]
FList(s) ==
    LET badp == IF Chance(Mix(s, 1), 25) THEN 30 ELSE 0 IN
    [ds |-> IF Chance(Mix(s, 2), 5) THEN Elem(Mix(s, 3), <<"Kepler", "", "smt-comp", "others">>) ELSE Elem(Mix(s, 3), <<"smtcomp", "script", "kepler", "other", "other">>),
     list |-> [j \in 1..Pick(Mix(s, 4), 7) |-> Entry(Mix(s, 20 + j), badp)], again |-> Chance(Mix(s, 5), 30)]
FGen == k = 0 /\ k' = 1 /\ UNCHANGED <<id, cmds, lits>> /\ PrintT(ToJson(FList(Seed0(S0, id))))
FSpec == Init /\ [][FGen]_<<id, cmds, k, lits>>
=============================================================================
