----------------------------- MODULE ReconModels -----------------------------
(* Answers of a solver to a transformed script: the image of the planted      *)
(* model, other models over the same characters, models with constants        *)
(* missing, and answers without a model.                                      *)
EXTENDS Recon, Rng, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
S0 == atoi(IOEnv.SEED)
VARIABLES c, done
\* a character that is reconstructed as k
Fwd(re, k) == LET S == {x[1] : x \in {y \in Rng1(re) : y[2] = k}} IN
              IF S # {} THEN CHOOSE x \in S : TRUE ELSE k
ImgV(cs, v) == IF DOMAIN v = {"s"} THEN [s |-> [k \in 1..Len(v.s) |-> Fwd(cs.re, v.s[k])]] ELSE v
Image(cs) == [k \in 1..Len(cs.wit) |-> [n |-> Alpha(cs.in)[cs.wit[k].n], v |-> ImgV(cs, cs.wit[k].v)]]
RECURSIVE CharsOf(_)
CharsOf(x) == IF IsStr(x) THEN Rng1(x.s) ELSE IF IsList(x) THEN UNION {CharsOf(x.a[k]) : k \in 1..Len(x.a)} ELSE {}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o SeqOf(S \ {m})
RECURSIVE LitsOf(_)
LitsOf(x) == IF IsStr(x) THEN {x.s} ELSE IF IsList(x) THEN UNION {LitsOf(x.a[k]) : k \in 1..Len(x.a)} ELSE {}
RECURSIVE Pref(_)
Ok(w) == \A k \in 1..Len(w) : w[k] # 92
Pref(q) == IF q = <<>> THEN <<>> ELSE <<Head(q).s>> \o Pref(Tail(q))
\* another model over the characters of the transformed script
Other(cs, j) ==
    LET s == Mix(Mix(Seed0(S0, cs.id), 77), j)
        al == SeqOf(CharsOf(Ls(cs.tr)) \cup {35, 97, 113, 48} \cup (IF Chance(Mix(s, 5), 30) THEN {1, 34, 200, 128512, 65535} ELSE {}) \cup UNION {Rng1(x.v.s) : x \in {y \in Rng1(Image(cs)) : DOMAIN y.v = {"s"}}})
        ls == LitsOf(Ls(cs.tr))
        word(t) == [k \in 1..Pick(Mix(t, 1), 4) |-> Elem(Mix(t, 2 + k), al)]
        lit(t) == IF ls = {} THEN <<>> ELSE LET n == Pick(Mix(t, 9), Cardinality(ls)) IN
                  CHOOSE l \in ls : Cardinality({m \in ls : \E k \in 1..(Len(l) + 1) : /\ k <= Len(m) + 1 /\ SubSeq(m, 1, k - 1) = SubSeq(l, 1, k - 1)
                        /\ ((k = Len(m) + 1 /\ k <= Len(l)) \/ (k <= Len(m) /\ k <= Len(l) /\ m[k] < l[k]))}) = n
        val(t, v) == IF DOMAIN v = {"s"} THEN IF Chance(Mix(t, 20), 35) THEN v
                                              ELSE IF Chance(Mix(t, 21), 40) THEN Str(lit(t))
                                              ELSE IF Chance(Mix(t, 22), 40) THEN Str(lit(t) \o word(t)) ELSE Str(word(t))
                     ELSE IF DOMAIN v = {"i"} THEN IF Chance(Mix(t, 23), 50) THEN v ELSE Num(Pick(Mix(t, 24), 5))
                     ELSE v
    IN [k \in 1..Len(cs.wit) |-> [n |-> Image(cs)[k].n, v |-> val(Mix(s, k), Image(cs)[k].v)]]
Rot(q, n) == [k \in 1..Len(q) |-> q[1 + ((k + n) % Len(q))]]
Drop(cs) == SelectSeq(Image(cs), LAMBDA m : Chance(Mix(Seed0(S0, cs.id), Len(m.n) + (IF DOMAIN m.v = {"s"} THEN Len(m.v.s) ELSE 0)), 60))
M(m, full) == [answer |-> "model", model |-> m, full |-> full]
NoM(a) == [answer |-> a, model |-> <<>>, full |-> FALSE]
Okm(m) == \A k \in 1..Len(m.model) : DOMAIN m.model[k].v = {"s"} => Ok(m.model[k].v.s)
Ans(cs) == SelectSeq(<<M(Image(cs), TRUE), M(Rot(Other(cs, 1), cs.id), TRUE), M(Other(cs, 2), TRUE), M(Other(cs, 3), TRUE),
                       M(Drop(cs), FALSE), NoM(<<"unsat", "timeout", "unknown", "nomodel">>[1 + (cs.id % 4)])>>, Okm)
Init == c \in 1..Len(Cases) /\ done = FALSE
Answer == /\ ~done /\ PrintT(ToJson([id |-> Cases[c].id, ans |-> Ans(Cases[c])])) /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Answer]_<<c, done>>
=============================================================================
