---------------------------- MODULE AnalysisTrace ----------------------------
EXTENDS Analysis, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Why(x) == LET e == Expected(x)
          IN IF x.obs.how # "" THEN x.obs.how
             ELSE IF x.obs.res # e.res THEN "results are not the ones of the files"
             ELSE IF x.obs.times # e.times /\ ~x.run THEN "times are not the ones of the experiment"
             \* after a run of the experiment the times are there, whatever they are
             ELSE IF x.run /\ \E k \in 1..3 : x.obs.times[k] < 0 THEN "no times after an experiment"
             ELSE IF x.obs.sizes # e.sizes THEN "sizes are not the ones of the files"
             ELSE IF x.obs.lits # e.lits THEN "the number of literals mapped character by character is not the one of the mapping"
             ELSE ""
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> Why(Cases[c])])) /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
