---------------------------- MODULE UpdaterTrace ----------------------------
(* Recorded runs of the real updater as behaviours of the transducer.  A    *)
(* case is [id, in, ev]; an event [e |-> "update", r, out] is one run, and   *)
(* [e |-> "again"] a run on the previous output.  An event is consumed by    *)
(* its action if the specification allows it, and by Reject otherwise.       *)
EXTENDS Updater, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES c, l, cur, bad
vars == <<c, l, cur, bad>>
Ev == Cases[c].ev
E  == Ev[l]

Allowed(e, in) ==
    IF e.r # "ok" THEN "no output: " \o e.r
    ELSE IF Prop = "U01" /\ ~LitsOK(in, e.out) THEN "a literal denotes something else"
    ELSE IF Prop = "U02" /\ ~ShapeOK(in, e.out) THEN "not the modernised commands"
    ELSE IF Prop = "U03" /\ ~LogicOK(in, e.out) THEN "wrong set-logic"
    ELSE IF Prop = "U04" /\ e.e = "again" /\ e.out # in THEN "second update changed the script"
    ELSE ""

Init == c \in 1..Len(Cases) /\ l = 1 /\ cur = <<>> /\ bad = ""
Step(e) == /\ l \in 1..Len(Ev) /\ bad = "" /\ E.e = e
           /\ LET in == IF e = "update" THEN Cases[c].in ELSE cur IN
              LET a == Allowed(E, in) IN
              /\ bad' = a
              /\ cur' = IF a = "" THEN E.out ELSE cur
              /\ l' = IF a = "" THEN l + 1 ELSE l
           /\ UNCHANGED c
Update == Step("update")
Again  == Step("again")
Done == /\ (l = Len(Ev) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad]))
        /\ l' = 0 /\ UNCHANGED <<c, cur, bad>>
Next == Update \/ Again \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
