----------------------------- MODULE ReconTrace -----------------------------
(* Recorded uses of reconstruct: convert the script of the case, give each     *)
(* answer, observe the report and the check script.                            *)
EXTENDS Recon, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad, nv
vars == <<c, l, bad, nv>>
Ev1 == Cases[c].ev
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ nv = 0
Event(e) == [e EXCEPT !.wrote = e.wrote] @@ [tr |-> Cases[c].tr, map |-> Cases[c].map]
\* models of the two scripts correspond to each other (T13)
BackC(cs, k) == LET S == {x[2] : x \in {y \in Rng1(cs.re) : y[1] = k}} IN IF S = {} THEN k ELSE CHOOSE x \in S : TRUE
BackV(cs, v) == IF DOMAIN v = {"s"} THEN [s |-> [k \in 1..Len(v.s) |-> BackC(cs, v.s[k])]] ELSE v
Origin(cs, m) == LET al == TLCEval(Alpha(cs.in)) IN
    TLCEval([k \in 1..Len(m) |-> [n |-> CHOOSE s \in DOMAIN al : al[s] = m[k].n, v |-> BackV(cs, m[k].v)]])
\* the first answer is the image of the planted model
Carries(cs, e, first) ==
    LET a == Holds(cs.in, Env(Origin(cs, e.model)))
        b == Holds(cs.tr, Env(e.model))
    IN IF first /\ ~b THEN "the image of a model is not a model of the transformed script"
       ELSE IF a /\ ~b THEN "a model of the script is mapped to no model of the transformed script"
       ELSE IF b /\ ~a THEN "a model of the transformed script comes from no model of the script" ELSE ""
Use == /\ l \in 1..Len(Ev1) /\ bad = ""
       /\ LET e == Event(Ev1[l]) IN
          /\ bad' = IF IOEnv.PROP = "T13" THEN Carries(Cases[c], e, l = 1) ELSE Outcome(Cases[c].in, e)
          /\ nv' = nv + (IF bad' = "" /\ (IF IOEnv.PROP = "T13" THEN Holds(e.tr, Env(e.model)) ELSE NonVacuous(e)) THEN 1 ELSE 0)
       /\ l' = IF bad' = "" THEN l + 1 ELSE l
       /\ UNCHANGED c
Done == /\ (l = Len(Ev1) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad, nv |-> nv, at |-> l]))
        /\ l' = 0 /\ UNCHANGED <<c, bad, nv>>
Next == Use \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
