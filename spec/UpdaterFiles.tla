---------------------------- MODULE UpdaterFiles ----------------------------
(* The command line tool as a state machine over a directory.  Contents are *)
(* small numbers naming scripts; 0 is "no such file"; Upd(n) is the content  *)
(* obtained by updating n.  A run is given any of the base names p, p_upt,   *)
(* its output has one more _upt; the extension is the first of smtlib, smt2  *)
(* that exists.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Depth == atoi(IOEnv.N)
Files == {"p.smtlib", "p.smt2", "p_upt.smtlib", "p_upt.smt2", "p_upt_upt.smtlib", "p_upt_upt.smt2", "q.smt2"}
VARIABLES fs, log
Upd(n) == 100 + n
Bad == {5}                      \* not a script: the run fails and writes nothing
F(base, ext) == base \o "." \o ext
Ext(base) == IF fs[F(base, "smtlib")] # 0 THEN "smtlib" ELSE IF fs[F(base, "smt2")] # 0 THEN "smt2" ELSE ""
Run == \E b \in {"p", "p_upt"} :
       LET x == Ext(b) IN
          /\ fs' = IF x = "" \/ fs[F(b, x)] \in Bad THEN fs ELSE [fs EXCEPT ![F(b \o "_upt", x)] = Upd(fs[F(b, x)])]
          /\ log' = Append(log, [op |-> "run", b |-> b, ok |-> fs' # fs \/ (x # "" /\ fs[F(b, x)] \notin Bad), fs |-> fs'])
Put == \E f \in {"p.smtlib", "p.smt2"}, n \in {1, 2, 3, 5} :
          /\ fs[f] # n
          /\ fs' = [fs EXCEPT ![f] = n]
          /\ log' = Append(log, [op |-> "put", f |-> f, n |-> n])
Del == \E f \in {"p.smtlib", "p.smt2"} :
          /\ fs[f] # 0
          /\ fs' = [fs EXCEPT ![f] = 0]
          /\ log' = Append(log, [op |-> "del", f |-> f])
Init == /\ fs \in {[f \in Files |-> CASE f = "q.smt2" -> 9 [] f = "p_upt.smt2" -> a [] f = "p_upt.smtlib" -> b
                                     [] f = "p.smt2" -> x [] f = "p.smtlib" -> y [] OTHER -> 0] : a \in {0, 8}, b \in {0, 7}, x \in {0, 1}, y \in {0, 2}}
        /\ log = <<[op |-> "init", fs |-> fs]>>
Next == /\ Len(log) <= Depth
        /\ (Run \/ (log[Len(log)].op # "put" /\ Put) \/ (log[Len(log)].op # "del" /\ Del))
        /\ (Len(log') = Depth + 1 /\ log'[Len(log')].op = "run") => PrintT(ToJson([log |-> log']))
Spec == Init /\ [][Next]_<<fs, log>>
\* design properties of the machine
InputsUntouched == [][(log'[Len(log')].op = "run") =>
    \A f \in Files : (f = F(log'[Len(log')].b, "smtlib") \/ f = F(log'[Len(log')].b, "smt2") \/ f = "q.smt2") => fs'[f] = fs[f]]_<<fs, log>>
\* a run writes at most one file, and only one with the suffix
OneOutput == [][(log'[Len(log')].op = "run") =>
    /\ Cardinality({f \in Files : fs'[f] # fs[f]}) <= 1
    /\ \A f \in {"p.smtlib", "p.smt2", "q.smt2"} : fs'[f] = fs[f]]_<<fs, log>>
=============================================================================
