------------------------------ MODULE OnlineGen ------------------------------
(* Behaviours of the pipeline (MODE=pipe) and configurations of the predictor *)
(* (MODE=predict) for the conformance runs.                                   *)
EXTENDS Online
Depth == atoi(IOEnv.N)
S0 == atoi(IOEnv.SEED)
VARIABLES st, log
Lists == {<<1, 2>>, <<3, 2, 1>>}
Ops == {[op |-> "edit", b |-> 2]} \cup {[op |-> "raw", l |-> l, m |-> m] : l \in Lists, m \in {"fmf", "nofmf"}}
       \cup {[op |-> o, l |-> l] : o \in {"count", "feat"}, l \in Lists}
\* word counts of one text: boundary values of the default buckets are frequent
Words(s) == [k \in 1..(1 + Pick(Mix(s, 1), 9)) |->
    LET r == Mix(s, 10 + k) IN
    IF Chance(r, 55) THEN Elem(Mix(r, 1), <<0, 1, 6, 7, 8, 9, 10, 11, 19, 20, 39, 40, 59, 60, 79, 80, 99, 100, 101, 130>>) ELSE Pick(Mix(r, 2), 125)]
\* blank lines at the ends of an output do not belong to it
Trim(ws) == [k \in 1..Len(ws) |-> IF (k = 1 \/ k = Len(ws)) /\ ws[k] = 0 THEN 1 ELSE ws[k]]
Text(s) == IF Chance(s, 4) THEN <<>> ELSE Trim(Words(Mix(s, 3)))
\* ------------------------------------------------------------------ predictor
Bounds(s) ==       \* increasing boundaries
    LET n == 1 + Pick(Mix(s, 1), 12)
        RECURSIVE Go(_, _)
        Go(k, last) == IF k = 0 THEN <<>> ELSE LET v == last + (IF Chance(Mix(s, 20 + k), 35) THEN 1 ELSE 1 + Pick(Mix(s, 40 + k), 15)) IN <<v>> \o Go(k - 1, v)
    IN Go(n, Pick(Mix(s, 2), 9))
Probs(s) == LET a == Pick(Mix(s, 1), 99) b == Pick(Mix(s, 2), 100 - a) IN
            LET q == <<a, b, 100 - a - b>> IN
            IF \E i, j \in 1..3 : i # j /\ q[i] = q[j] THEN <<20, 50, 30>> ELSE q
\* means in halves, deviations powers of two (or 0: not normalized): the quotients are exact
Norm(s, n) == [mean |-> [k \in 1..n |-> Pick(Mix(s, 100 + k), 21)], std |-> [k \in 1..n |-> Elem(Mix(s, 200 + k), <<0, 1, 2, 4, 8>>)]]
PredCase(k) ==
    LET s == Seed0(k, S0)
        bs == IF Chance(Mix(s, 1), 35) THEN <<>> ELSE Bounds(Mix(s, 2))
        eff == IF bs = <<>> THEN Default ELSE bs
    IN [id |-> k, words |-> Text(Mix(s, 3)), words2 |-> Text(Mix(s, 13)), bs |-> bs, norm |-> IF Chance(Mix(s, 4), 50) THEN Norm(Mix(s, 5), 17 + Len(eff) + 1) ELSE [mean |-> <<>>, std |-> <<>>],
        fmf |-> Chance(Mix(s, 6), 50), conf |-> Elem(Mix(s, 7), <<0, 3, 29, 49, 50, 51, 57, 99, 100>>), probs |-> Probs(Mix(s, 8)),
        verb |-> Elem(Mix(s, 9), <<"Full", "Pretty", "Vector">>)]
\* the texts differ from behaviour to behaviour
Code(o) == CASE o.op = "edit" -> 1 [] o.op = "raw" -> 2 + Len(o.l) + (IF o.m = "fmf" THEN 5 ELSE 0) [] o.op = "count" -> 11 + Len(o.l) [] OTHER -> 15 + Len(o.l)
RECURSIVE Hash(_)
Hash(q) == IF q = <<>> THEN Seed0(S0, 77) ELSE Mix(Hash(Tail(q)), Code(Head(q)))
Outs(q) == LET h == Hash(q) IN [b \in B |-> [v \in 1..2 |-> [m \in {"fmf", "nofmf"} |-> Text(Mix(Mix(h, b * 8 + v), IF m = "fmf" THEN 1 ELSE 2))]]]
Init == st = Start /\ log = <<>>
Pipe == \E o \in Ops :
        /\ Len(log) < Depth
        /\ Enabled(st, o)
        /\ (o.op = "edit" => log # <<>> /\ log[Len(log)].op # "edit")
        /\ Step(st, o) # st
        /\ st' = Step(st, o) /\ log' = Append(log, o)
        /\ (Len(log') = Depth /\ o.op = "feat") => PrintT(ToJson([log |-> log', out |-> Outs(log')]))
Predict == log = <<>> /\ \E k \in 1..Depth : log' = <<k>> /\ PrintT(ToJson(PredCase(k))) /\ st' = st
Next == IF IOEnv.MODE = "pipe" THEN Pipe ELSE Predict
Spec == Init /\ [][Next]_<<st, log>>
\* a stored count is of an output that was stored, a row of a count that was stored
Provenance == IOEnv.MODE = "pipe" =>
    /\ \A b \in B : (\A k \in 1..Len(log) : log[k].op # "raw" \/ ~In(b, log[k].l)) => st.raw[b] = None /\ st.cnt[b] = None
    /\ \A k \in 1..Len(st.csv) : st.csv[k] # None
=============================================================================
