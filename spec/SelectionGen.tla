---------------------------- MODULE SelectionGen ----------------------------
EXTENDS Selection
N == atoi(IOEnv.N)
S0 == atoi(IOEnv.SEED)
VARIABLE n
Leaf(s) == Elem(Mix(s, 1), <<"x", "y", "x.y", "q_1">>) \o ToString(Pick(Mix(s, 2), 6)) \o ".smt2"
PathOf(s) ==
    LET r == Pick(Mix(s, 3), 11) IN
    CASE r < 3 -> <<"QF_SLIA", "2019-Jiang", "slog", Leaf(s)>>
      [] r < 5 -> <<"QF_SLIA", "2019-full_str_int", Leaf(s)>>
      [] r < 7 -> <<"QF_SLIA", "20180523-Reynolds", "pyex", "peterc-pyex-doc-cav17-z3", Leaf(s)>>
      [] r = 7 -> <<"QF_SLIA", "20180523-Reynolds", "pyex", "other", Leaf(s)>>
      [] r = 8 -> <<"QF_S", "2019-Jiang", "slog", Leaf(s)>>
      [] r = 9 -> <<"QF_SLIA", Leaf(s)>>
      [] OTHER -> <<"QF_SLIA", "2018-Kepler", Leaf(s)>>
Result(s) == [path |-> PathOf(s), solver |-> Elem(Mix(s, 4), <<"CVC4-sq-final", "CVC4-sq-final", "CVC4-sq-final", "Z3str4 SMTCOMP2020 v1.1", "CVC4">>),
              status |-> Elem(Mix(s, 5), <<"complete", "complete", "complete", "timeout (wallclock)">>),
              wall |-> IF Chance(Mix(s, 6), 50) THEN Elem(Mix(s, 7), <<2999, 3000, 3001, 29999, 30000, 30001, 32999, 33000, 33001, 119999, 120000>>) ELSE Pick(Mix(s, 8), 60000)]
Case(k) ==
    LET s == Seed0(k, S0)
        m == 1 + Pick(Mix(s, 1), 9)
        rs == [j \in 1..m |-> Result(Mix(s, 20 + j))]
    IN [id |-> k, results |-> rs,
        ex1 |-> [j \in 1..Pick(Mix(s, 2), 3) |-> rs[1 + Pick(Mix(s, 40 + j), m)].path],
        ex2 |-> [j \in 1..Pick(Mix(s, 3), 3) |-> IF Chance(Mix(s, 50 + j), 50) THEN rs[1 + Pick(Mix(s, 60 + j), m)].path ELSE <<"QF_SLIA", "z.smt2">>],
        secs |-> [j \in 1..(1 + Pick(Mix(s, 4), 5)) |-> [fmf |-> Elem(Mix(s, 70 + j), <<0, 1, 2, 3, 299, 300, 301, 900>>), no |-> Elem(Mix(s, 80 + j), <<0, 1, 2, 3, 299, 300, 301, 700>>)]],
        \* modernization: per listed benchmark, the directory, dots in the name, extension, script
        mod |-> [j \in 1..(1 + Pick(Mix(s, 5), 4)) |-> [dir |-> Elem(Mix(s, 90 + j), <<"", "sub/", "v1.2/">>), stem |-> Elem(Mix(s, 95 + j), <<"b", "b.x", "sc-6.induction">>) \o ToString(j),
                                                       ext |-> Elem(Mix(s, 100 + j), <<"smt2", "smt2", "smtlib">>), text |-> Pick(Mix(s, 105 + j), 3)]]]
Init == n = 0
Next == n = 0 /\ \E k \in 1..N : n' = k /\ PrintT(ToJson(Case(k)))
Spec == Init /\ [][Next]_n
=============================================================================
