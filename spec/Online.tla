------------------------------- MODULE Online -------------------------------
(* Online features.  The working directory of the scripts as a state:          *)
(*   ver  current version of what a solver prints about a benchmark,           *)
(*   raw  what the stored raw output of a benchmark was printed for,           *)
(*   cnt  what the stored word counts were made from,                          *)
(*   csv  the table, one entry per row.                                        *)
(* One step is one run of a script over a list of benchmarks.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rng
B == 1..3
None == [v |-> 0, m |-> ""]
Start == [ver |-> [b \in B |-> 1], raw |-> [b \in B |-> None], cnt |-> [b \in B |-> None], csv |-> <<>>]
In(b, l) == \E k \in 1..Len(l) : l[k] = b
Enabled(st, o) ==
    CASE o.op = "edit" -> TRUE
      [] o.op = "raw" -> TRUE
      [] o.op = "count" -> \A k \in 1..Len(o.l) : st.raw[o.l[k]] # None
      [] o.op = "feat" -> \A k \in 1..Len(o.l) : st.cnt[o.l[k]] # None
Step(st, o) ==
    CASE o.op = "edit" -> [st EXCEPT !.ver[o.b] = 3 - @]
      [] o.op = "raw" -> [st EXCEPT !.raw = [b \in B |-> IF In(b, o.l) THEN [v |-> st.ver[b], m |-> o.m] ELSE @[b]]]
      [] o.op = "count" -> [st EXCEPT !.cnt = [b \in B |-> IF In(b, o.l) THEN st.raw[b] ELSE @[b]]]
      [] o.op = "feat" -> [st EXCEPT !.csv = [k \in 1..Len(o.l) |-> st.cnt[o.l[k]]]]
\* ------------------------------------------------------------------ buckets
\* boundaries b1 < .. < bn: one bucket below b1, one from each boundary up to the next, one from bn on
Default == <<7, 8, 9, 10, 20, 40, 60, 80, 100>>
InBucket(w, bs, k) == /\ (k > 1 => w >= bs[k-1]) /\ (k <= Len(bs) => w < bs[k])
Hist(ws, bs) == [k \in 1..Len(bs)+1 |-> Cardinality({j \in 1..Len(ws) : InBucket(ws[j], bs, k)})]
Label(bs, k) ==
    IF k = 1 THEN "less_than_" \o ToString(bs[1])
    ELSE IF k > Len(bs) THEN "over_" \o ToString(bs[Len(bs)])
    ELSE IF bs[k] = bs[k-1] + 1 THEN "equal_" \o ToString(bs[k-1])
    ELSE "between_" \o ToString(bs[k-1]) \o "_" \o ToString(bs[k])
Labels(bs) == [k \in 1..Len(bs)+1 |-> Label(bs, k)]
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumQ(Tail(q))
\* the buckets are a partition: every line is counted, once
Partition(ws, bs) == SumQ(Hist(ws, bs)) = Len(ws)
=============================================================================
