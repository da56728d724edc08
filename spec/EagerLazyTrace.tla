--------------------------- MODULE EagerLazyTrace ---------------------------
(* Runs of the Eager v. Lazy scripts against EagerLazy.tla.                    *)
EXTENDS EagerLazy
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, bad
C == Cases[c]
Init == c \in 1..Len(Cases) /\ pos = 1 /\ bad = ""
M == Len(C.bench)
\* cleaning: one step per row of the three aligned files
CleanStart ==
    IF C.obs.rc # 0 THEN "the script fails: " \o C.obs.how
    ELSE IF C.obs.header # Fields THEN "the feature file is not labelled with the fields"
    ELSE IF Len(C.obs.names) # M \/ Len(C.obs.best) # M \/ Len(C.obs.rows) # M THEN "the files do not have one row per benchmark"
    ELSE ""
CleanRow(k) ==
    IF C.obs.names[k] # C.bench[k].name THEN "the benchmarks are not listed in their order"
    ELSE IF C.obs.best[k] # C.solvers[ArgMin(C.bench[k].times)] THEN "the label is not the fastest solver"
    ELSE IF ~RowExact(C.obs.rows[k], C.bench[k].sets) THEN "a row does not hold the features of its benchmark"
    ELSE ""
\* a problem, described by what the encoder printed about it
Advice ==
    LET e == C.obs IN
    IF e.rc # 0 THEN "the prediction fails: " \o e.how
    ELSE IF e.calls # <<"ep-eager">> THEN "the wrong endpoint is asked"
    ELSE IF ~RowExact(e.vec, C.sets) THEN "the feature vector does not describe the problem"
    ELSE IF C.verb = "Vector" THEN (IF e.probs # C.probs THEN "the printed probabilities are not the predicted ones" ELSE "")
    ELSE IF e.label # ArgMax(C.probs) THEN "the printed approach is not the most probable one"
    ELSE IF e.conf # C.probs[ArgMax(C.probs)] THEN "the printed confidence is not the probability of the approach"
    ELSE ""
\* comparison: the first of the fastest in the order z3, cvc4, sat, among those within 300 seconds
RaceStart ==
    IF C.obs.rc # 0 THEN "the script fails: " \o C.obs.how
    ELSE IF Len(C.obs.best) # Len(C.race) \/ Len(C.obs.rows) # Len(C.race) THEN "the files do not have one row per benchmark"
    ELSE ""
Fastest(names, q) == IF \A j \in 1..Len(q) : q[j] > 300 THEN "None" ELSE names[ArgMin(q)]
RaceRow(k) ==
    LET r == C.race[k] IN
    IF C.obs.best[k] # Fastest(<<"z3", "cvc4", "sat">>, <<r.z3, r.cvc4, r.sat>>) THEN "the label is not the fastest solver"
    ELSE IF ~RowExact(C.obs.rows[k], r.sets) THEN "a row does not hold the features of its benchmark"
    ELSE ""
Rows == CASE C.kind = "clean" -> M [] C.kind = "race" -> Len(C.race) [] OTHER -> 0
Step == /\ bad = "" /\ pos <= Rows + 1
        /\ bad' = IF pos = 1 THEN (CASE C.kind = "clean" -> CleanStart [] C.kind = "race" -> RaceStart [] OTHER -> Advice)
                  ELSE (CASE C.kind = "clean" -> CleanRow(pos - 1) [] C.kind = "race" -> RaceRow(pos - 1))
        /\ pos' = pos + 1 /\ UNCHANGED c
End == /\ pos < 10000 /\ (bad # "" \/ pos = Rows + 2) /\ PrintT(ToJson([id |-> C.id, bad |-> bad])) /\ pos' = 10000 /\ UNCHANGED <<c, bad>>
Spec == Init /\ [][Step \/ End]_<<c, pos, bad>>
=============================================================================
