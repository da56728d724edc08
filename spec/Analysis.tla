------------------------------ MODULE Analysis ------------------------------
(* What data_processing.py reads back for a query q of an experiment: the     *)
(* results (first lines of q.out, q_transformed.out, q_recon_check.out), the   *)
(* user times of q_times.out in milliseconds (-1: none), the sizes of the      *)
(* script, the transformed script and the mapping (-1: no such file), and the  *)
(* number of literals that were mapped character by character.                 *)
EXTENDS Integers, Sequences
\* a file: [there, lines]; an empty file has the one line ""
Lower(s) == CASE s = "SAT" -> "sat" [] s = "UNSAT" -> "unsat" [] s = "Unknown" -> "unknown" [] s = "SAT: no model" -> "sat: no model" [] OTHER -> s
IsError(s) == s \in {"(error \"line 3: no\")", "(error"}
Result(f) == IF ~f.there THEN "not_run"
             ELSE IF f.lines[1] = "" THEN "no_check_sat"
             ELSE IF IsError(f.lines[1]) THEN "error"
             ELSE IF f.lines[1] = "\"\"" THEN "gnu_timeout" ELSE Lower(f.lines[1])
\* entries of the times: [cmd, min, ms] with cmd 1..3 (script, conversion, transformed script) or 0 (another one);
\* cut: number of lines of the file that are there (5 per entry)
Time(t, k) ==
    IF ~t.there \/ \E j \in 1..k : j > Len(t.entries) \/ t.entries[j].cmd # j \/ (j < k /\ t.cut < 5 * j) THEN -1
    ELSE IF t.cut < 5 * (k - 1) + 4 THEN -1 ELSE 60000 * t.entries[k].min + t.entries[k].ms
Times(t) == [k \in 1..3 |-> Time(t, k)]
\* the number of literals: 0 without a readable mapping
Lits(m) == IF m.kind = "map" THEN m.lits ELSE 0
Expected(c) == [res |-> <<Result(c.out), Result(c.trans), Result(c.recon)>>, times |-> Times(c.times), sizes |-> c.sizes, lits |-> Lits(c.map)]
=============================================================================
