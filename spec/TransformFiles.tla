--------------------------- MODULE TransformFiles ---------------------------
(* The transformer's command line and its experiment scripts as a state        *)
(* machine over a directory.  A content is a small number:                     *)
(*   0 no file, 1..3 a script, 9 something that is no script,                  *)
(*   100+n the transformed script n, 200+n a mapping of script n,              *)
(*   300+n the sub-formulas of script n, 400 times of an experiment,           *)
(*   500.. answers of a solver: unsat, timeout, unknown, sat, sat and a model, *)
(*         and (505) something that is no answer,                              *)
(*   600+10*n+m script n with an equation for the variable of script m,        *)
(*   1000+c what the solver of an experiment prints when given content c.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bases == {"p", "d/p", "v1.2/p.q", "v1.2/p"}
\* the ones whose paths have no dot (the experiment script cuts paths at their first dot: a known finding)
Plain == {"p", "d/p"}
Exts  == {"smt2", "smtlib"}
F(b, e) == b \o "." \o e
\* name of the directory-less output of the sub-formula listing
Stem(b) == IF b = "v1.2/p.q" THEN "p.q" ELSE "p"
Inputs == {F(b, e) : b \in Bases, e \in Exts} \cup {"other.smt2"}
Files == Inputs \cup {F(b \o x, e) : b \in Bases, e \in Exts, x \in {"_transformed", "_recon_check"}}
         \cup {b \o x : b \in Bases, x \in {"_mapping.json", ".out", "_transformed.out", "_times.out"}}
         \cup {Stem(b) \o "_recon.json" : b \in Bases} \cup {"global_mapping.json"}
Scripts == 1..3
Bad == 9
Answers == 500..505
Empty == [f \in Files |-> IF f = "other.smt2" THEN 2 ELSE 0]
MapName(b, g) == IF g THEN "global_mapping.json" ELSE b \o "_mapping.json"
Said == [n \in 500..504 |-> CASE n = 500 -> "UNSAT" [] n = 501 -> "timeout" [] n = 502 -> "unknown"
                              [] n = 503 -> "SAT: no model" [] n = 504 -> "SAT: model reconstructed"]
Converted(fs, b, e, g) ==
    LET n == fs[F(b, e)] IN [fs EXCEPT ![F(b \o "_transformed", e)] = 100 + n, ![MapName(b, g)] = 200 + n]
RECURSIVE Experiments(_, _, _)
Experiment(fs, b, e, g) ==
    LET n == fs[F(b, e)]
    IN [Converted(fs, b, e, g) EXCEPT ![b \o ".out"] = 1000 + n, ![b \o "_transformed.out"] = 1100 + n, ![b \o "_times.out"] = 400]
Experiments(fs, l, g) == IF l = <<>> THEN fs ELSE Experiments(Experiment(fs, Head(l)[1], Head(l)[2], g), Tail(l), g)
\* what can be done, and what it leads to: [ok, fs, say]
Enabled(fs, o) ==
    CASE o.op = "put" -> fs[F(o.b, o.e)] # o.n
      [] o.op = "experiment" -> fs[F(o.b, o.e)] \in Scripts
      [] o.op = "batch" -> \A k \in 1..Len(o.l) : fs[F(o.l[k][1], o.l[k][2])] \in Scripts
      [] OTHER -> TRUE
\* the listing of equal transformed scripts of a directory, <<file, a file equal to it>>; text tells equal files by equal numbers
Dir(d) == {F(b \o "_transformed", "smtlib") : b \in IF d = "." THEN {"p"} ELSE {"v1.2/p.q", "v1.2/p"}}
Pairs(text, d) == {<<f, g>> \in Dir(d) \X Dir(d) : {f, g} \subseteq DOMAIN text /\ text[g] = text[f]}
Fail(fs) == [ok |-> FALSE, fs |-> fs, say |-> ""]
Done(fs) == [ok |-> TRUE, fs |-> fs, say |-> ""]
Recon(fs, b, e) ==
    LET m == fs[b \o "_mapping.json"] - 200  a == fs[b \o "_transformed.out"]  n == fs[F(b, e)]
    IN IF m \notin Scripts \/ a \notin 500..504 THEN Fail(fs)
       ELSE IF a < 504 THEN [ok |-> TRUE, fs |-> fs, say |-> Said[a]]
       ELSE IF n \notin Scripts THEN Fail(fs)
       ELSE [ok |-> TRUE, fs |-> [fs EXCEPT ![F(b \o "_recon_check", e)] = 600 + 10 * n + m], say |-> Said[a]]
Apply(fs, o) ==
    CASE o.op = "put" -> Done([fs EXCEPT ![F(o.b, o.e)] = o.n])
      [] o.op = "answer" -> Done([fs EXCEPT ![o.b \o "_transformed.out"] = o.n])
      [] o.op \in {"convert", "sub"} /\ fs[F(o.b, o.e)] \notin Scripts -> Fail(fs)
      [] o.op = "convert" -> Done(Converted(fs, o.b, o.e, o.g))
      [] o.op = "sub" -> Done([fs EXCEPT ![Stem(o.b) \o "_recon.json"] = 300 + fs[F(o.b, o.e)]])
      [] o.op = "recon" -> Recon(fs, o.b, o.e)
      [] o.op = "pairs" -> Done(fs)
      [] o.op = "experiment" -> Done(Experiment(fs, o.b, o.e, o.g))
      [] o.op = "batch" -> Done(Experiments(fs, o.l, o.g))
=============================================================================
