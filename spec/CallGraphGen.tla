---------------------------- MODULE CallGraphGen ----------------------------
(* Sessions of the call graph.  MODE=exa: every graph with N nodes, each a      *)
(* constraint variable, a Bool or another function (WHAT=all: any edges, self   *)
(* loops included; WHAT=dag: edges from higher to lower nodes); MODE=rnd: seeded *)
(* larger graphs, all functions, siblings, unknown nodes, repetition, in three  *)
(* orders of the same actions.                                                  *)
EXTENDS Rng, TLC, FiniteSets, Json, IOUtils
Mode == IOEnv.MODE
N == atoi(IOEnv.N)
S0 == atoi(IOEnv.SEED)
What == IOEnv.WHAT
VARIABLES id, k, kinds, edges
vars == <<id, k, kinds, edges>>
Name == <<"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11">>
Lit == <<"a", "b", "c", "d", "e", "f">>
Add(op, n, f, q) == [op |-> op, n |-> n, f |-> f, lits |-> q, p |-> "", c |-> "", s |-> <<>>]
Edge(p, q) == [op |-> "edge", n |-> "", f |-> "", lits |-> <<>>, p |-> p, c |-> q, s |-> <<>>]
Sib(s, q) == [op |-> "sib", n |-> "", f |-> "", lits |-> q, p |-> "", c |-> "", s |-> s]
Prop == [op |-> "propagate", n |-> "", f |-> "", lits |-> <<>>, p |-> "", c |-> "", s |-> <<>>]
\* ------------------------------------------------------------------ exhaustive
Kinds == {"cvar", "bool", "fct"}
MkNode(i, d) == CASE d = "cvar" -> Add("cvar", Name[i], "", <<>>)
                  [] d = "bool" -> Add("call", Name[i], IF i % 2 = 1 THEN "str.contains" ELSE "=", <<Lit[i]>>)
                  [] d = "fct" -> Add("call", Name[i], IF i % 2 = 1 THEN "str.++" ELSE "str.len", <<Lit[i]>>)
Pairs == {<<i, j>> \in (1..N) \X (1..N) : What = "all" \/ i > j}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Exa(ks, E) == [i \in 1..N |-> MkNode(i, ks[i])] \o (LET q == SeqOf(E) IN [j \in 1..Len(q) |-> Edge(Name[q[j][1]], Name[q[j][2]])]) \o <<Prop>>
\* ------------------------------------------------------------------ seeded
BoolF == <<"str.contains", "distinct", "str.in_re", "str.is_digit", "str.<", "str.prefixof", "str.<=", "=", "str.suffixof">>
OtherF == <<"re.all", "re.allchar", "re.comp", "re.++", "re.diff", "re.inter", "re.+", "re.*", "re.loop", "re.opt", "re.^", "re.range", "re.union", "str.to_re",
            "str.indexof", "str.len", "str.to_code", "str.to_int", "str.from_code", "str.from_int", "str.replace", "str.replace_all", "str.replace_re", "str.replace_re_all",
            "str.at", "str.++", "str.substr">>
LitsOf(s) == LET n == Pick(Mix(s, 1), 4) IN IF n = 3 THEN <<"a", "b">> ELSE IF n = 2 THEN <<Elem(Mix(s, 2), <<"c", "q", "z">>)>> ELSE IF n = 1 THEN <<Elem(Mix(s, 3), Lit)>> ELSE <<>>
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE LET r == Uniq(Tail(q)) IN IF \E i \in 1..Len(r) : r[i] = q[1] THEN r ELSE <<q[1]>> \o r
Creation(s, n) == [i \in 1..n |-> LET t == Mix(s, i) r == Pick(Mix(t, 9), 10) IN
    IF r < 3 THEN Add("cvar", Name[i], "", IF r = 0 THEN LitsOf(t) ELSE <<>>)
    ELSE Add("call", Name[i], IF r < 6 THEN Elem(Mix(t, 8), BoolF) ELSE Elem(Mix(t, 8), OtherF), LitsOf(t))]
Relations(s, n) == [j \in 1..(Pick(Mix(s, 50), 2 * n) + 1) |-> LET t == Mix(s, 100 + j)
                                                        a == 1 + Pick(Mix(t, 1), n)
                                                        b == 1 + Pick(Mix(t, 2), n)
                                                        r == Pick(Mix(t, 3), 100)
    IN IF r < 4 /\ a # b /\ Chance(Mix(s, 51), 30) THEN Edge(Name[a], Name[b])      \* may close a cycle
       ELSE IF r < 84 THEN (IF a = b THEN Edge(Name[IF a = n THEN n ELSE n], Name[1 + Pick(Mix(t, 4), n - 1)]) ELSE Edge(Name[IF a > b THEN a ELSE b], Name[IF a > b THEN b ELSE a]))
       ELSE IF r < 87 THEN (IF r = 84 THEN Edge("nope", Name[a]) ELSE Edge(Name[a], "nope"))
       ELSE Sib(Uniq(<<Name[a], Name[b]>> \o (IF r = 99 THEN <<"nope">> ELSE IF r > 94 THEN <<Name[1]>> ELSE <<>>)), LitsOf(Mix(t, 5)))]
\* another order of a sequence
RECURSIVE Shuffle(_,_)
Shuffle(s, q) == IF q = <<>> THEN <<>> ELSE
    LET i == 1 + Pick(s, Len(q)) IN <<q[i]>> \o Shuffle(Mix(s, 3), SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
Rnd(s) == LET n == 2 + Pick(Mix(s, 1), 10)
              nodes == Creation(Mix(s, 2), n)
              rel == Relations(Mix(s, 3), n)
              again == IF Chance(Mix(s, 4), 30) THEN rel ELSE <<>>
              twice == IF Chance(Mix(s, 5), 30) THEN <<Prop>> ELSE <<>>
          IN << nodes \o rel \o <<Prop>> \o twice, Shuffle(Mix(s, 6), nodes) \o Shuffle(Mix(s, 7), rel) \o again \o <<Prop>>,
                Shuffle(Mix(s, 8), nodes) \o again \o Shuffle(Mix(s, 9), rel) \o <<Prop>> \o twice >>
Init == /\ k = 0
        /\ IF Mode = "rnd" THEN id \in 1..N /\ kinds = <<>> /\ edges = {}
           ELSE id = 0 /\ kinds \in [1..N -> Kinds] /\ edges \in SUBSET Pairs
Gen == /\ k = 0 /\ k' = 1 /\ UNCHANGED <<id, kinds, edges>>
       /\ PrintT(ToJson([s |-> IF Mode = "rnd" THEN Rnd(Seed0(S0, id)) ELSE <<Exa(kinds, edges)>>]))
Next == Gen
Spec == Init /\ [][Next]_vars
=============================================================================
