----------------------------- MODULE Selection -----------------------------
(* Selection of benchmarks: competition results are cut into two data sets by  *)
(* the time that was needed, benchmarks are divided by the faster solver       *)
(* configuration, and a list of benchmarks is rewritten into modern syntax.    *)
(* Times are in hundredths of a second.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rng
Families == {"2019-full_str_int", "2019-Jiang"}
Chosen(r) == \/ Len(r.path) >= 3 /\ r.path[1] = "QF_SLIA" /\ r.path[2] \in Families
             \/ Len(r.path) >= 5 /\ r.path[1] = "QF_SLIA" /\ r.path[4] = "peterc-pyex-doc-cav17-z3"
Time(r) == IF r.status = "complete" THEN r.wall ELSE 120000
Eligible(r, ex) == Chosen(r) /\ r.solver = "CVC4-sq-final" /\ ~(\E k \in 1..Len(ex) : ex[k] = r.path)
Short(r, ex) == Eligible(r, ex) /\ Time(r) >= 3000 /\ Time(r) < 30000
\* the first 300 seconds went to an attempt with another option
Long(r, ex) == Eligible(r, ex) /\ Time(r) >= 33000
ShortRow(r) == [path |-> r.path, t |-> Time(r)]
LongRow(r)  == [path |-> r.path, t |-> Time(r) - 30000]
RECURSIVE Sel(_,_,_)
Sel(rs, ex, long) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         (IF long /\ Long(r, ex) THEN <<LongRow(r)>> ELSE IF ~long /\ Short(r, ex) THEN <<ShortRow(r)>> ELSE <<>>) \o Sel(Tail(rs), ex, long)
=============================================================================
