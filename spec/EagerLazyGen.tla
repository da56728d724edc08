---------------------------- MODULE EagerLazyGen ----------------------------
(* Results and parameter files for the data cleaning script, and durations of *)
(* the three solvers for the comparison script.                               *)
EXTENDS EagerLazy
N == atoi(IOEnv.N)
S0 == atoi(IOEnv.SEED)
VARIABLE n
ParamSet(s) ==
    LET big == Chance(Mix(s, 1), 15)
        k == Elem(Mix(s, 2), <<0, 0, 0, 1, 1, 2, 3>>)
        p == [vars |-> 1 + Pick(Mix(s, 3), IF big THEN 6000 ELSE 30), constraints |-> 1 + Pick(Mix(s, 4), IF big THEN 9000 ELSE 40),
              a_max |-> 1 + Pick(Mix(s, 5), 3), b_max |-> IF Chance(Mix(s, 6), 10) THEN 2147483646 ELSE Elem(Mix(s, 6), <<0, 1, 2, 3, 7, 15, 85, 127, 128, 629>>),
              k |-> k, w |-> 1 + Pick(Mix(s, 7), 3), bound |-> 0]
    IN [p EXCEPT !.bound = Bits(p) + Elem(Mix(s, 8), <<0, 0, 0, 0, 1, -1>>)]
Bench(s, k) == [name |-> Elem(Mix(s, 1), <<"a", "prp-1-", "job", "x.y-", "fischer">>) \o ToString(k) \o ".smt2",
                sets |-> [j \in 1..Elem(Mix(s, 2), <<1, 1, 1, 2, 2, 3, 4>>) |-> ParamSet(Mix(s, 10 + j))],
                times |-> [j \in 1..3 |-> IF Chance(Mix(s, 30 + j), 25) THEN 3601000 + Pick(Mix(s, 40 + j), 3) ELSE IF Chance(Mix(s, 35 + j), 30) THEN 17 ELSE Pick(Mix(s, 40 + j), 90000)]]
\* the two files list the benchmarks in different orders
Perm(s, m) == CHOOSE f \in [1..m -> 1..m] :
    /\ \A i, j \in 1..m : i # j => f[i] # f[j]
    /\ \A j \in 1..m : f[j] = ((j * (IF m \in {3, 5} THEN 2 ELSE 1) + Pick(s, m)) % m) + 1
Case(k) ==
    LET s == Seed0(k, S0)  m == 1 + Pick(Mix(s, 1), 5)
    IN [id |-> k, bench |-> [j \in 1..m |-> Bench(Mix(s, 10 + j), j)], order |-> Perm(Mix(s, 2), m), theory |-> Elem(Mix(s, 3), <<"idl", "lia">>),
        bom |-> Chance(Mix(s, 4), 50), solvers |-> Elem(Mix(s, 5), << <<"cvc4", "z3", "sat">>, <<"z3", "sat", "cvc4">> >>),
        \* in seconds
        secs |-> [j \in 1..m |-> [z3 |-> Elem(Mix(s, 50 + j), <<1, 20, 40, 60, 80, 299, 301, 400>>), cvc4 |-> Elem(Mix(s, 60 + j), <<0, 20, 40, 80, 120, 299, 301, 500>>),
                                  sat |-> Elem(Mix(s, 70 + j), <<0, 4, 6, 20, 40, 80, 299, 301, 700>>)]],
        probs |-> LET a == Pick(Mix(s, 80), 99) b == Pick(Mix(s, 81), 100 - a) q == <<a, b, 100 - a - b>> IN
                  IF \E i, j \in 1..3 : i # j /\ q[i] = q[j] THEN <<20, 30, 50>> ELSE q,
        verb |-> Elem(Mix(s, 82), <<"Full", "Pretty", "Vector">>)]
Init == n = 0
Next == n = 0 /\ \E k \in 1..N : n' = k /\ PrintT(ToJson(Case(k)))
Spec == Init /\ [][Next]_n
=============================================================================
