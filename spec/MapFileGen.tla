----------------------------- MODULE MapFileGen -----------------------------
(* Histories of a mapping file.  MODE=all: every sequence of up to LEN actions  *)
(* over two mappings; MODE=rnd: seeded mappings with unusual characters, all    *)
(* property combinations, and seeded histories.                                 *)
EXTENDS Rng, TLC, Json, IOUtils
Mode == IOEnv.MODE
N == atoi(IOEnv.N)
MaxLen == atoi(IOEnv.LEN)
S0 == atoi(IOEnv.SEED)
VARIABLES id, k, h
vars == <<id, k, h>>
\* no q or Q: the scripts that are converted in between use these
Chars == <<97, 98, 65, 48, 57, 32, 34, 92, 10, 9, 0, 127, 128, 233, 255, 8232, 55295, 57344, 65535, 65536, 128512, 1114111, 47, 123, 124, 117>>
Ch(s) == Elem(s, Chars)
Word(s) == [j \in 1..Pick(Mix(s, 1), 6) |-> Ch(Mix(s, 10 + j))]
NWord(s) == <<Ch(Mix(s, 2))>> \o Word(s)
\* n different first components
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>> ELSE LET r == Dedup(Tail(q)) IN IF \E i \in 1..Len(r) : r[i] = q[1] THEN r ELSE <<q[1]>> \o r
Distinct(s, n, F(_)) == Dedup([j \in 1..n |-> F(Mix(s, 100 + j))])
\* pairs of two lists of different things
Zip(a, b) == [j \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) |-> <<a[j], b[j]>>]
Bool(s) == Chance(s, 50)
Entry(s, w) ==
    [k |-> w, len |-> Bool(Mix(s, 3)), ranges |-> Distinct(Mix(s, 4), Pick(Mix(s, 5), 4), LAMBDA t : <<Ch(Mix(t, 1)), Ch(Mix(t, 2))>>),
     ints |-> Elem(Mix(s, 6), <<"No", "AsInts", "ExactInts">>), sub |-> Bool(Mix(s, 7)), psub |-> Bool(Mix(s, 8)),
     prefix |-> Word(Mix(s, 9)), suffix |-> Word(Mix(s, 10)), mids |-> [j \in 1..Pick(Mix(s, 11), 4) |-> NWord(Mix(s, 20 + j))], to |-> NWord(Mix(s, 12))]
Mapping(s) ==
    LET n(j) == Pick(Mix(s, j), 7)
        keys == Distinct(Mix(s, 30), n(1), NWord)
    IN [char |-> Zip(Distinct(Mix(s, 31), n(2), Ch), Distinct(Mix(s, 32), n(2), Ch)),
        str |-> [j \in 1..n(3) |-> <<Word(Mix(s, 40 + j)), Word(Mix(s, 60 + j))>>],
        alpha |-> Zip(Distinct(Mix(s, 33), n(4), NWord), Distinct(Mix(s, 34), n(4), NWord)),
        vars |-> [j \in 1..n(5) |-> NWord(Mix(s, 80 + j))], failed |-> [j \in 1..Pick(Mix(s, 6), 3) |-> NWord(Mix(s, 90 + j))],
        c2cl |-> [j \in 1..Pick(Mix(s, 7), 3) |-> Word(Mix(s, 95 + j))],
        persist |-> [j \in 1..Len(keys) |-> Entry(Mix(s, 200 + j), keys[j])]]
Maps == [i \in 1..2 |-> Mapping(Seed0(S0, 30000 + i))]
\* scripts with their literals
Scripts == << [lits |-> << <<113>>, <<81, 113>> >>, t |-> "(declare-const x String)(assert (= x \"q\"))(assert (str.contains x \"Qq\"))"],
              [lits |-> << <<113, 113>> >>, t |-> "(declare-const x String)(assert (str.prefixof \"qq\" x))(assert (= (str.len x) 3))"],
              [lits |-> <<>>, t |-> "(declare-const x Int)(assert (= x 1))"] >>
Act(s) == LET r == Pick(s, 8) IN
    IF r < 3 THEN [op |-> "write", map |-> Mapping(Mix(s, 1)), n |-> 0, smt |-> "", lits |-> <<>>]
    ELSE IF r < 5 THEN [op |-> "read", map |-> 0, n |-> 0, smt |-> "", lits |-> <<>>]
    ELSE IF r = 5 THEN [op |-> "cut", map |-> 0, n |-> 1 + Pick(Mix(s, 2), 999), smt |-> "", lits |-> <<>>]
    ELSE LET x == Elem(Mix(s, 3), Scripts) IN [op |-> "convert", map |-> 0, n |-> 0, smt |-> x.t, lits |-> x.lits]
Read == [op |-> "read", map |-> 0, n |-> 0, smt |-> "", lits |-> <<>>]
Acts == << [Read EXCEPT !.op = "write", !.map = Maps[1]], [Read EXCEPT !.op = "write", !.map = Maps[2]], Read,
           [Read EXCEPT !.op = "cut", !.n = 500], [Read EXCEPT !.op = "convert", !.smt = Scripts[1].t, !.lits = Scripts[1].lits],
           [Read EXCEPT !.op = "convert", !.smt = Scripts[3].t] >>
Init == h = <<>> /\ k = 0 /\ IF Mode = "all" THEN id = 0 ELSE id \in 1..N
All == /\ Mode = "all" /\ k < MaxLen
       /\ \E i \in 1..Len(Acts) : h' = Append(h, i)
       /\ k' = k + 1 /\ UNCHANGED id
       /\ PrintT(ToJson([h |-> [j \in 1..Len(h') |-> Acts[h'[j]]]]))
Rnd == /\ Mode = "rnd" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<id, h>>
       /\ LET s == Seed0(S0, id)
              n == 1 + Pick(Mix(s, 1), 5)
          IN PrintT(ToJson([h |-> <<[Read EXCEPT !.op = "write", !.map = Mapping(Mix(s, 2))], Read>> \o [j \in 1..n |-> Act(Mix(s, 10 + j))] \o <<Read>>]))
Next == All \/ Rnd
Spec == Init /\ [][Next]_vars
=============================================================================
