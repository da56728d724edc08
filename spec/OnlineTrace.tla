----------------------------- MODULE OnlineTrace -----------------------------
(* Runs of the scripts against Online.tla.                                    *)
EXTENDS Online
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, st, pos, bad
vars == <<c, st, pos, bad>>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ st = Start /\ pos = 1 /\ bad = ""
\* pipeline: after every run the table written by the feature step is the one of the state
Want(s, k) == Hist(C.out[C.log[pos].l[k]][s.csv[k].v][s.csv[k].m], Default)
Judge(s, o, e) ==
    IF e.rc # 0 THEN "a script fails: " \o e.how
    ELSE IF o.op # "feat" THEN ""
    ELSE IF e.header # Labels(Default) THEN "the header does not name the buckets"
    ELSE IF Len(e.rows) # Len(o.l) THEN "the table does not have one row per listed benchmark"
    ELSE IF \E k \in 1..Len(o.l) : Len(e.rows[k]) # Len(e.header) THEN "a row is not aligned with the header"
    ELSE IF \E k \in 1..Len(o.l) : e.rows[k] # Want(s, k) THEN "a row does not hold the line counts of its benchmark"
    ELSE ""
Run == /\ C.kind = "pipe" /\ bad = "" /\ pos <= Len(C.log)
       /\ LET s == Step(st, C.log[pos]) IN st' = s /\ bad' = Judge(s, C.log[pos], C.obs[pos])
       /\ pos' = pos + 1 /\ UNCHANGED c
\* ------------------------------------------------------------------ predictor
\* val = <<numerator, denominator>>; means in halves
NormOK(v, f, mean, std) == IF std = 0 THEN v[1] = f * v[2] ELSE 2 * v[1] * std = (2 * f - mean) * v[2]
ArgMax(q) == CHOOSE k \in 1..Len(q) : \A j \in 1..Len(q) : q[j] <= q[k]
Max(q) == q[ArgMax(q)]
PJudge ==
    LET bs == IF C.bs = <<>> THEN Default ELSE C.bs
        h == Hist(IF C.fmf THEN C.words ELSE C.words2, bs)
        f == C.off \o h
        n == Len(f)
        e == C.obs
    IN IF e.rc # 0 THEN "the prediction fails: " \o e.how
       ELSE IF e.calls # (IF C.fmf THEN <<"ep-runtime", "ep-fmf">> ELSE <<"ep-runtime">>) THEN "the wrong endpoints are asked"
       ELSE IF Len(e.vec) # n THEN "the feature vector does not have one entry per feature"
       ELSE IF \E k \in 1..n : IF C.norm.mean = <<>> THEN e.vec[k][1] # f[k] * e.vec[k][2] ELSE ~NormOK(e.vec[k], f[k], C.norm.mean[k], C.norm.std[k])
            THEN "the feature vector is not that of the problem"
       ELSE IF C.verb = "Full" /\ e.labels # C.offlabels \o Labels(bs) THEN "the labels do not name the features"
       ELSE IF C.fmf /\ (Len(e.vec2) # Len(h) \/ \E k \in 1..Len(h) : e.vec2[k][1] # h[k] * e.vec2[k][2]) THEN "the configuration model does not get the online features"
       ELSE IF C.verb = "Vector" THEN (IF e.probs # C.probs THEN "the printed probabilities are not the predicted ones" ELSE "")
       ELSE IF e.label # ArgMax(C.probs) THEN "the printed class is not the most probable one"
       ELSE IF e.conf # Max(C.probs) THEN "the printed confidence is not the probability of the class"
       ELSE IF C.fmf /\ (e.fmf # (C.conf > 50) \/ e.fmfconf # (IF C.conf > 50 THEN C.conf ELSE 100 - C.conf)) THEN "the advice on the solver option is not the predicted one"
       ELSE ""
Pred == C.kind = "predict" /\ pos = 1 /\ pos' = 2 /\ bad' = PJudge /\ UNCHANGED <<c, st>>
End == /\ pos < 1000 /\ (bad # "" \/ (C.kind = "pipe" /\ pos > Len(C.log)) \/ (C.kind = "predict" /\ pos = 2))
       /\ PrintT(ToJson([id |-> C.id, bad |-> bad]))
       /\ pos' = 1000 /\ UNCHANGED <<c, st, bad>>
Next == Run \/ Pred \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
