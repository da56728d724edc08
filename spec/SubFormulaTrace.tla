--------------------------- MODULE SubFormulaTrace ---------------------------
(* A recorded listing is consumed entry by entry: the k-th recorded entry     *)
(* must be the k-th entry of the specified listing, and both end together.    *)
(* Events: [e |-> "list", r, out] runs of the real listing (repeated runs,    *)
(* command line runs) of the script of the case.                              *)
EXTENDS SubFormula, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, k, todo, bad
vars == <<c, l, k, todo, bad>>
Ev == Cases[c].ev
Init == c \in 1..Len(Cases) /\ l = 0 /\ k = 0 /\ todo = <<>> /\ bad = ""
\* start consuming run l+1
Begin == /\ k = 0 /\ l \in 0..(Len(Ev) - 1) /\ bad = ""
         /\ l' = l + 1 /\ k' = 1
         /\ IF Ev[l + 1].r # "ok" THEN bad' = Ev[l + 1].mode \o ": no listing: " \o Ev[l + 1].r /\ todo' = <<>>
            ELSE todo' = Listing(Cases[c].in) /\ bad' = ""
         /\ UNCHANGED c
Same(x, y) == DOMAIN x = DOMAIN y /\ x = y
RECURSIVE Eq(_,_)
Eq(x, y) == IF DOMAIN x # DOMAIN y THEN FALSE
            ELSE IF IsList(x) THEN Len(x.a) = Len(y.a) /\ \A j \in 1..Len(x.a) : Eq(x.a[j], y.a[j])
            ELSE x = y
\* all entries of one run in one step: the first difference, if any
Consume == /\ k = 1 /\ bad = ""
           /\ LET o == Ev[l].out
                  n == IF Len(o) < Len(todo) THEN Len(o) ELSE Len(todo)
                  d == {j \in 1..n : ~Eq(todo[j], o[j])}
              IN bad' = IF d # {} THEN LET j == CHOOSE j \in d : \A i \in d : j <= i
                                       IN Ev[l].mode \o ": entry " \o ToString(j) \o " differs: " \o ToString(<<todo[j], o[j]>>)
                        ELSE IF Len(o) < Len(todo) THEN Ev[l].mode \o ": an application is not listed: " \o ToString(todo[n + 1])
                        ELSE IF Len(o) > Len(todo) THEN Ev[l].mode \o ": more entries than applications: " \o ToString(o[n + 1])
                        ELSE ""
           /\ k' = 0 /\ todo' = <<>> /\ UNCHANGED <<c, l>>
Done == /\ (bad # "" \/ (k = 0 /\ l = Len(Ev))) /\ k # 2
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad]))
        /\ k' = 2 /\ UNCHANGED <<c, l, todo, bad>>
Next == (k # 2 /\ (Begin \/ Consume)) \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
