--------------------------- MODULE SelectionTrace ---------------------------
EXTENDS Selection
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, short, long, bad
vars == <<c, pos, short, long, bad>>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ pos = 1 /\ short = <<>> /\ long = <<>> /\ bad = ""
Ex == C.ex1 \o C.ex2
\* one step per line of the results
Line == /\ C.kind = "select" /\ pos <= Len(C.results) /\ bad = ""
        /\ LET r == C.results[pos] IN
           /\ short' = IF Short(r, Ex) THEN Append(short, ShortRow(r)) ELSE short
           /\ long' = IF Long(r, Ex) THEN Append(long, LongRow(r)) ELSE long
        /\ pos' = pos + 1 /\ UNCHANGED <<c, bad>>
Halves(q) == [k \in 1..Len(q) |-> q[k].path]
Times(q) == [k \in 1..Len(q) |-> q[k].t]
Select ==
    LET e == C.obs IN
    IF e.rc # 0 THEN "the script fails: " \o e.how
    ELSE IF e.head # <<"time", "time">> THEN "a file of times has no header"
    ELSE IF e.names1 # Halves(short) THEN "the benchmarks of the first data set are not those solved in 30 to 300 seconds"
    ELSE IF e.times1 # Times(short) THEN "the times of the first data set are not those of its benchmarks"
    ELSE IF e.names2 # Halves(long) THEN "the benchmarks of the second data set are not those that needed 300 seconds and 30 more"
    ELSE IF e.times2 # Times(long) THEN "the times of the second data set are not those of its benchmarks without the first 300 seconds"
    ELSE ""
\* every benchmark is in exactly one of the lists: the faster ones with the option, and the others
\* (a run is stopped after 300 seconds)
Cap(t) == IF t > 300 THEN 300 ELSE t
Faster(k) == Cap(C.secs[k].fmf) < Cap(C.secs[k].no)
RECURSIVE Pos(_, _)
Pos(k, f) == IF k > Len(C.secs) THEN <<>> ELSE (IF Faster(k) = f THEN <<k>> ELSE <<>>) \o Pos(k + 1, f)
Race ==
    LET e == C.obs IN
    IF e.rc # 0 THEN "the script fails: " \o e.how
    ELSE IF e.faster # Pos(1, TRUE) THEN "the benchmarks listed as faster are not those that are faster with the option"
    ELSE IF e.slower # Pos(1, FALSE) THEN "the benchmarks listed as slower are not the other ones"
    ELSE IF e.times # [k \in 1..Len(C.secs) |-> <<Cap(C.secs[k].fmf), Cap(C.secs[k].no)>>] THEN "the run times are not those of the benchmarks"
    ELSE ""
\* every listed benchmark gets its _upt file, no other file changes
Modern ==
    LET e == C.obs IN
    IF e.rc # 0 THEN "the script fails: " \o e.how
    ELSE IF \E k \in 1..Len(e.made) : e.made[k] # "updated" THEN "a listed benchmark is not modernized: " \o e.made[CHOOSE k \in 1..Len(e.made) : e.made[k] # "updated"]
    ELSE IF e.others # 0 THEN "other files are written or changed"
    ELSE ""
Judge == /\ bad = "" /\ pos < 1000 /\ (C.kind = "select" => pos > Len(C.results))
         /\ bad' = (CASE C.kind = "select" -> Select [] C.kind = "race" -> Race [] OTHER -> Modern)
         /\ pos' = 1000 /\ UNCHANGED <<c, short, long>>
End == /\ pos = 1000 /\ PrintT(ToJson([id |-> C.id, bad |-> bad])) /\ pos' = 1001 /\ UNCHANGED <<c, short, long, bad>>
Spec == Init /\ [][Line \/ Judge \/ End]_vars
\* no benchmark is in both data sets for one result
Disjoint == \A r \in {C.results[k] : k \in 1..Len(C.results)} : ~(Short(r, Ex) /\ Long(r, Ex))
=============================================================================
