------------------------- MODULE TransformFilesGen -------------------------
(* MODE "all": every history of two operations from a few directories (every  *)
(* STRIDE-th is printed); MODE "rnd": N seeded histories of DEPTH operations.  *)
EXTENDS TransformFiles, Json, IOUtils, SequencesExt
Mode == IOEnv.MODE
N == atoi(IOEnv.N)
Depth == IF Mode = "all" THEN 2 ELSE atoi(IOEnv.DEPTH)
Seed == atoi(IOEnv.SEED)
VARIABLES id, fs, log
Op0(op, b, e) == [op |-> op, b |-> b, e |-> e, g |-> FALSE, m |-> "no-reconstruct", n |-> 0, l |-> <<>>]
Envs == {[Op0("put", b, e) EXCEPT !.n = n] : b \in Bases, e \in Exts, n \in Scripts \cup {Bad}}
        \cup {[Op0("answer", b, "") EXCEPT !.n = n] : b \in Bases, n \in Answers}
Runs == {[Op0("convert", b, e) EXCEPT !.g = g, !.m = m] : b \in Bases, e \in Exts, g \in BOOLEAN, m \in {"no-reconstruct", "char-to-char"}}
        \cup {Op0(o, b, e) : o \in {"sub", "recon"}, b \in Bases, e \in Exts}
        \cup {[Op0("experiment", b, e) EXCEPT !.g = g] : b \in Plain, e \in Exts, g \in BOOLEAN}
        \cup {Op0("pairs", d, "") : d \in {".", "v1.2"}}
        \cup {[Op0("batch", "", "") EXCEPT !.g = g, !.l = l] : g \in BOOLEAN,
                  l \in {<< <<"p", "smt2">>, <<"d/p", "smtlib">> >>, << <<"d/p", "smt2">>, <<"p", "smt2">>, <<"p", "smtlib">> >>,
                        << <<"d/p", "smtlib">>, <<"d/p", "smt2">> >>}}
IsEnv(o) == o.op \in {"put", "answer"}
\* a hash of the history's number, the seed and a step
M == 65521
H(a, b) == ((((a % M) * 30011) % M) + (((b % M) * 20029) % M) + (4099 * ((a + b) % 7))) % M
Rnd(i, k) == H(H(H(Seed + 17, i), (31 * k) + 7), (i % 251) + (3 * k))
EnvSeq == SetToSeq(Envs)
RunSeq == SetToSeq(Runs)
ReconSeq == SetToSeq({o \in Runs : o.op = "recon"})
Pick(s, r) == s[1 + (r % Len(s))]
Start(a, b, c, m, t) == [Empty EXCEPT !["v1.2/p.smtlib"] = b, !["p.smt2"] = a, !["v1.2/p.q.smtlib"] = b, !["v1.2/p.q.smt2"] = c, !["d/p.smtlib"] = b, !["d/p.smt2"] = c,
                                      !["p_mapping.json"] = m, !["p_transformed.out"] = t]
Init == /\ log = <<>>
        /\ \/ /\ Mode = "all" /\ id = 0
              /\ \E a \in {0, 1, 9}, b \in {0, 2}, t \in {<<0, 0>>, <<201, 504>>, <<202, 503>>} : fs = Start(a, b, 3, t[1], t[2])
           \/ /\ Mode = "rnd" /\ id \in 1..N
              /\ fs = Start(Pick(<<1, 2, 3, 9>>, Rnd(id, 91)), Pick(<<0, 1, 2>>, Rnd(id, 92)), Pick(<<2, 3, 9>>, Rnd(id, 93)),
                            Pick(<<0, 0, 201, 203>>, Rnd(id, 94)), Pick(<<0, 500, 504, 504>>, Rnd(id, 95)))
Choice(k) == LET r == Rnd(id, 2 * k)  q == Rnd(id, 2 * k + 1)
             IN IF k = Depth THEN Pick(RunSeq, q) ELSE CASE r % 7 < 2 -> Pick(EnvSeq, q) [] r % 7 = 2 -> Pick(ReconSeq, q) [] OTHER -> Pick(RunSeq, q)
Do(o) == fs' = Apply(fs, o).fs /\ log' = Append(log, [o |-> o, was |-> fs]) /\ UNCHANGED id
Next == /\ Len(log) < Depth
        /\ IF Mode = "all" THEN \E o \in Runs \cup (IF log = <<>> THEN Envs ELSE {}) : Enabled(fs, o) /\ Do(o)
           ELSE LET o == Choice(Len(log) + 1) IN IF Enabled(fs, o) THEN Do(o) ELSE Do([Op0("sub", "p", "smt2") EXCEPT !.b = "p"])
Spec == Init /\ [][Next]_<<id, fs, log>>
Out == Len(log) = Depth /\ (Mode = "rnd" \/ H(H(Seed, log[1].was["p.smt2"] + 7 * log[1].was["p_mapping.json"]), H(fs["p_mapping.json"] + fs["p_transformed.out"], Len(ToString(log)))) % N = 0)
Shown == Out => PrintT(ToJson([init |-> log[1].was, ops |-> [k \in 1..Depth |-> log[k].o]]))
\* no run changes a script, and none writes anywhere but next to its input or in the working directory
LastOp == log'[Len(log')].o
InputsUntouched == [][~IsEnv(LastOp) => \A f \in Inputs : fs'[f] = fs[f]]_<<id, fs, log>>
\* a failed run leaves no trace
FailureLeavesNothing == [][~Apply(fs, LastOp).ok => fs' = fs]_<<id, fs, log>>
\* a run about one base leaves the files of the others alone
Separate == [][LastOp.b \in Bases => \A b \in Bases \ {LastOp.b} : \A f \in {b \o x : x \in {"_mapping.json", ".out", "_transformed.out", "_times.out"}}
                 \cup {F(b \o x, e) : x \in {"", "_transformed", "_recon_check"}, e \in Exts} : fs'[f] = fs[f]]_<<id, fs, log>>
\* what is found under a name is of that kind
Kinds == \A b \in Bases : /\ fs[b \o "_mapping.json"] \in {0} \cup {200 + n : n \in Scripts}
                          /\ fs[b \o ".out"] \in {0} \cup {1000 + n : n \in Scripts}
                          /\ fs[b \o "_transformed.out"] \in {0} \cup Answers \cup {1100 + n : n \in Scripts}
=============================================================================
