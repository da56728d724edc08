----------------------------- MODULE EagerLazy -----------------------------
(* The features and labels of the Eager v. Lazy model.  A parameter set is what *)
(* the encoder reports about one partition of a problem; a problem is described *)
(* by the combination of its sets.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rng, BigInt
Fields == <<"vars", "constraints", "a_max", "b_max", "k", "w", "bound">>
RECURSIVE SumF(_,_), MaxF(_,_)
SumF(q, f) == IF q = <<>> THEN 0 ELSE Head(q)[f] + SumF(Tail(q), f)
MaxF(q, f) == IF Len(q) = 1 THEN q[1][f] ELSE LET m == MaxF(Tail(q), f) IN IF q[1][f] > m THEN q[1][f] ELSE m
Min(a, b) == IF a < b THEN a ELSE b
\* the solution size bound: values of at most D decide the problem, ceil(log2(D + 1) + 1) bits represent them
RECURSIVE BPow(_,_), Log2(_,_,_)
BPow(x, k) == IF k = 0 THEN BOf(1) ELSE BMul(x, BPow(x, k - 1))
D1(p) ==       \* D + 1
    LET b1 == BAdd(BOf(p.b_max), BOf(1)) IN
    IF p.k = 0 THEN BAdd(BMul(BOf(Min(p.vars, p.constraints)), b1), BOf(1))
    ELSE BAdd(BMul(BMul(BPow(BMul(BOf(p.a_max), BOf(p.w)), p.k), BMul(BOf(p.vars + 2), BOf(Min(p.vars + 1, p.constraints)))), b1), BOf(1))
Log2(x, e, pow) == IF BLe(x, pow) THEN e ELSE Log2(x, e + 1, BAdd(pow, pow))     \* ceil(log2 x)
Bits(p) == 1 + Log2(D1(p), 0, BOf(1))
\* several partitions: one "naive" encoding of all of them
Combine(q) ==
    IF Len(q) = 1 THEN q[1]
    ELSE LET p == [vars |-> SumF(q, "vars"), constraints |-> SumF(q, "constraints"), a_max |-> MaxF(q, "a_max"),
                   b_max |-> MaxF(q, "b_max"), k |-> SumF(q, "k"), w |-> MaxF(q, "w"), bound |-> 0]
         IN [p EXCEPT !.bound = Bits(p)]
\* the bound may be off by one (it is computed with logarithms)
RowOK(row, p) == /\ Len(row) = 7
                 /\ \A k \in 1..6 : row[k] = p[Fields[k]]
                 /\ row[7] - p.bound \in -1..1
RowExact(row, q) == RowOK(row, Combine(q)) /\ (Len(q) = 1 => row[7] = q[1].bound)
\* the first of the fastest
ArgMin(q) == CHOOSE k \in 1..Len(q) : (\A j \in 1..Len(q) : q[k] <= q[j]) /\ (\A j \in 1..k-1 : q[k] < q[j])
ArgMax(q) == CHOOSE k \in 1..Len(q) : (\A j \in 1..Len(q) : q[k] >= q[j]) /\ (\A j \in 1..k-1 : q[k] > q[j])
=============================================================================
