----------------------------- MODULE AnalysisGen -----------------------------
EXTENDS Analysis, Rng, TLC, Json, IOUtils
N == atoi(IOEnv.N)
S0 == atoi(IOEnv.SEED)
At(s, k) == Pick(Mix(s, k), 99991)
Sub(s, k) == Mix(s, 700 + k)
VARIABLE i
Firsts == <<"sat", "unsat", "unknown", "timeout", "SAT", "Unknown", "SAT: no model", "", "\"\"", "(error \"line 3: no\")", "(error", "errors", "sat ">>
File(s) == LET l == Firsts[1 + (At(s, 1) % Len(Firsts))]
           IN [there |-> At(s, 2) % 6 # 0, lines |-> <<l>> \o (CASE At(s, 3) % 4 = 0 -> <<>> [] At(s, 3) % 4 = 1 -> <<"(", ")">> [] At(s, 3) % 4 = 2 -> <<"(error \"no model\")">> [] OTHER -> <<"unsat", "SAT">>)]
Entry(s, k) == [cmd |-> IF At(s, 4) % 12 = 0 THEN At(s, 5) % 4 ELSE k, min |-> <<0, 0, 1, 9, 10, 59, 75>>[1 + (At(s, 6) % 7)], ms |-> <<0, 1, 17, 999, 5004, 10000, 59999>>[1 + (At(s, 7) % 7)]]
TimesFile(s) == LET n == IF At(s, 8) % 3 = 0 THEN 1 + (At(s, 9) % 3) ELSE 3
                IN [there |-> At(s, 10) % 8 # 0, entries |-> [k \in 1..n |-> Entry(Sub(s, 20 + k), k)], cut |-> IF At(s, 11) % 3 = 0 THEN At(s, 12) % (5 * n + 1) ELSE 5 * n]
Size(s, k) == IF At(s, k) % 5 = 0 THEN -1 ELSE At(s, k + 1) % 90
Gen(k) == LET s == Seed0(k, S0)
          IN [id |-> k, q |-> <<"q", "q.1", "q_transformed", "main.out", "x-y">>[1 + (At(s, 30) % 5)],
              out |-> File(Sub(s, 41)), trans |-> File(Sub(s, 42)), recon |-> File(Sub(s, 43)), times |-> TimesFile(Sub(s, 44)),
              sizes |-> <<Size(s, 51), Size(s, 53)>>, map |-> [kind |-> <<"map", "map", "map", "old", "broken", "none">>[1 + (At(s, 55) % 6)], lits |-> At(s, 56) % 5]]
Init == i \in 1..N
Next == i > 0 /\ PrintT(ToJson(Gen(i))) /\ i' = -i
Spec == Init /\ [][Next]_i
=============================================================================
