--------------------------- MODULE TransformTrace ---------------------------
(* Recorded runs of the real transformer as behaviours of the transducer.    *)
(* An event [e |-> "transform", mode, r, out, map] is consumed by Run if the  *)
(* specification allows the outcome, otherwise the case is rejected.          *)
EXTENDS TransformSat, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES c, l, bad
vars == <<c, l, bad>>
Ev == Cases[c].ev
Cmds == Cases[c].in

Allowed(e) ==
    IF e.r # "ok" THEN "no output: " \o e.r
    ELSE LET al == AlignAll(Cmds, e.out) IN
    IF Prop = "T01" THEN RenamingOK(Cmds, al, e.map)
    ELSE IF Prop = "T02" THEN ShapeOK(al)
    ELSE IF ShapeOK(al) # "" THEN ShapeOK(al)
    \* a refused script has no outcome to judge; refusing a supported one is no outcome either
    ELSE IF Prop # "T08" /\ e.map.failed # <<>> THEN (IF MayRefuse(Cmds) THEN "" ELSE "a supported script is refused")
    ELSE CASE Prop = "T03" -> IF LitsOK(Cmds, al, e.map, e.mode) # "" THEN LitsOK(Cmds, al, e.map, e.mode) ELSE MapOK(Cmds, al, e.map, e.mode)
           [] Prop = "T04" -> CharOK(Cmds, al, e.map)
           [] Prop = "T05" -> RelOK(Cmds, al)
           [] Prop = "T06" -> LET a == Satisfiable(Cmds)
                                  b == Satisfiable(e.out)
                              IN IF a = b THEN "" ELSE IF a THEN "satisfiable, but the transformed script is not"
                                                      ELSE "unsatisfiable, but the transformed script is satisfiable"
           [] Prop = "T08" -> IF e.bail # (e.map.failed # <<>>) THEN "the bail-out message does not match the failed variables"
                              ELSE FailOK(Cmds, al, e.map)

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = ""
Run == /\ l \in 1..Len(Ev) /\ bad = "" /\ Ev[l].e = "transform"
       /\ LET a == Allowed(Ev[l]) IN bad' = (IF a = "" THEN "" ELSE Ev[l].mode \o ": " \o a)
       /\ l' = IF bad' = "" THEN l + 1 ELSE l
       /\ UNCHANGED c
Done == /\ (l = Len(Ev) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad]))
        /\ l' = 0 /\ UNCHANGED <<c, bad>>
Next == Run \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
