------------------------ MODULE TransformFilesTrace ------------------------
(* Recorded histories: after every operation the exit status and the contents *)
(* of all files (classified; -1 is a content that is none of the known ones). *)
EXTENDS TransformFiles, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, fs, bad
C == Cases[c]
Init == c \in 1..Len(Cases) /\ pos = 1 /\ fs = Cases[c].init /\ bad = ""
Files1(o) == {f \in DOMAIN o.fs : o.fs[f] # 0}
Why(o, a, e) ==
    IF a.ok # (e.rc = 0) THEN o.op \o (IF a.ok THEN " fails" ELSE " succeeds on something that is no script")
    ELSE IF a.say # e.say THEN o.op \o " says " \o e.say \o " for " \o a.say
    ELSE IF o.op = "pairs" /\ Pairs(e.text, o.b) # {<<q[1], q[2]>> : q \in {e.pairs[k] : k \in 1..Len(e.pairs)}} THEN "the listing of equal transformed scripts is wrong"
    ELSE IF \E f \in DOMAIN e.fs : f \notin Files THEN o.op \o " writes another file: " \o (CHOOSE f \in DOMAIN e.fs : f \notin Files)
    ELSE IF \E f \in Files : a.fs[f] # (IF f \in DOMAIN e.fs THEN e.fs[f] ELSE 0)
         THEN o.op \o ": wrong content of " \o (CHOOSE f \in Files : a.fs[f] # (IF f \in DOMAIN e.fs THEN e.fs[f] ELSE 0))
    ELSE ""
Step == /\ bad = "" /\ pos <= Len(C.obs)
        /\ LET o == C.ops[pos] a == Apply(fs, o) IN /\ bad' = Why(o, a, C.obs[pos]) /\ fs' = a.fs
        /\ pos' = pos + 1 /\ UNCHANGED c
End == /\ pos < 1000 /\ (bad # "" \/ pos = Len(C.obs) + 1) /\ PrintT(ToJson([id |-> C.id, bad |-> bad])) /\ pos' = 1000 /\ UNCHANGED <<c, fs, bad>>
Spec == Init /\ [][Step \/ End]_<<c, pos, fs, bad>>
=============================================================================
