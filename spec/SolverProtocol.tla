---------------------------- MODULE SolverProtocol ----------------------------
(* The pipe between a front end and an external SAT solver process, as a state *)
(* machine: the solver emits tokens and then exits (or is killed) at any point; *)
(* the front end may report a verdict only for a complete answer.               *)
(*   C  comment line            E  empty line          G  text that is no DIMACS *)
(*   S  the right status line   U  "s UNKNOWN"         T  half a status line     *)
(*   V1, V2  the two halves of the assignment (V2 ends with 0; none for unsat)   *)
(* starts: how the process comes into being.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.N)
Tok == {"C", "E", "G", "S", "U", "T", "V1", "V2"}
Exits == {"normal", "zero", "one", "killed"}
Starts == {"runs", "absent", "not executable", "deaf"}       \* deaf: exits without reading its input
VARIABLES start, out, exit
vars == <<start, out, exit>>
Has(q, x) == \E k \in 1..Len(q) : q[k] = x
Pos(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x /\ \A j \in 1..(k - 1) : q[j] # x
Clean(q) == \A k \in 1..Len(q) : q[k] \in {"C", "E", "S", "V1", "V2"}
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
\* the whole answer, as the DIMACS output format has it; sat tells which answer is right
Complete(q, sat) ==
    /\ Clean(q) /\ Count(q, "S") = 1
    /\ IF sat THEN /\ Count(q, "V1") = 1 /\ Count(q, "V2") = 1 /\ Pos(q, "S") < Pos(q, "V1") /\ Pos(q, "V1") < Pos(q, "V2")
       ELSE Count(q, "V1") = 0 /\ Count(q, "V2") = 0
\* what the front end may answer: "verdict" (must), "none" (must not), "any" (an error or the right verdict)
Must(s, q, e, sat) == IF s \notin {"runs", "deaf"} \/ ~Has(q, "S") THEN "none"
                      ELSE IF s = "runs" /\ e = "normal" /\ Complete(q, sat) THEN "verdict" ELSE "any"
Init == start \in Starts /\ out = <<>> /\ exit = ""
Emit == /\ exit = "" /\ start \in {"runs", "deaf"} /\ Len(out) < Depth
        /\ (Len(out) > 0 => out[Len(out)] # "T")              \* killed in the middle of a line
        /\ \E x \in Tok : (x \in {"G", "U"} => Count(out, x) = 0) /\ out' = Append(out, x)
        /\ UNCHANGED <<start, exit>>
Exit == /\ exit = ""
        /\ exit' \in (IF start \in {"absent", "not executable"} THEN {"one"} ELSE IF Has(out, "T") THEN Exits \ {"normal"} ELSE Exits)
        /\ PrintT(ToJson([start |-> start, out |-> out, exit |-> exit', sat |-> Must(start, out, exit', TRUE), unsat |-> Must(start, out, exit', FALSE)]))
        /\ UNCHANGED <<start, out>>
Spec == Init /\ [][Emit \/ Exit]_vars
\* design: no verdict without a status line; every complete answer has one
NoGuess == \A sat \in BOOLEAN : Must(start, out, "normal", sat) # "none" => Has(out, "S")
Answers == \A sat \in BOOLEAN : Complete(out, sat) /\ start = "runs" => Must(start, out, "normal", sat) = "verdict"
\* what has not been printed yet cannot turn a verdict into "must not": Must is monotone in the output
Monotone == [][\A sat \in BOOLEAN : Must(start, out, "normal", sat) # "none" => Must(start', out', "normal", sat) # "none"]_vars
=============================================================================
