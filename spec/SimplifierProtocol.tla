-------------------------- MODULE SimplifierProtocol --------------------------
(* `encode` on the command line hands the CNF to a simplifier process that      *)
(* writes the output file.  The simplifier may be missing, may die, may find    *)
(* the formula unsatisfiable (status 20, no file) or may have written only a    *)
(* part.  wrote: nothing, part or all of the file when the process ends.        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES start, wrote, exit, stale
vars == <<start, wrote, exit, stale>>
Starts == {"runs", "absent", "not executable"}
\* sat: whether the script is satisfiable (a simplifier does not claim 20 for a satisfiable one)
Must(sat) == IF start # "runs" THEN "none"
             ELSE IF exit = "0" /\ wrote = "all" THEN "verdict"
             ELSE IF exit = "20" /\ ~sat THEN "verdict"
             ELSE IF exit \in {"1", "3", "killed"} THEN "none" ELSE "skip"
Init == start \in Starts /\ wrote = "nothing" /\ exit = "" /\ stale \in BOOLEAN
Write == exit = "" /\ start = "runs" /\ wrote' = (IF wrote = "nothing" THEN "part" ELSE "all") /\ wrote # "all" /\ UNCHANGED <<start, exit, stale>>
Exit == /\ exit = "" /\ exit' \in (IF start = "runs" THEN {"0", "1", "3", "20", "killed"} ELSE {"1"}) /\ UNCHANGED <<start, wrote, stale>>
Report == /\ exit # "" /\ exit # "reported"
          /\ PrintT(ToJson([start |-> start, wrote |-> wrote, exit |-> exit, stale |-> stale, sat |-> Must(TRUE), unsat |-> Must(FALSE)]))
          /\ exit' = "reported" /\ UNCHANGED <<start, wrote, stale>>
Spec == Init /\ [][Write \/ Exit \/ Report]_vars
\* a death of the simplifier is never reported as success
NoFalseSuccess == exit = "killed" => Must(TRUE) = "none" /\ Must(FALSE) = "none"
=============================================================================
