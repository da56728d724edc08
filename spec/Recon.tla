-------------------------------- MODULE Recon --------------------------------
(* Reconstruction: from the solver's answer to a char-to-char transformed      *)
(* script back to the original one.  The state machine of one use:            *)
(*   converted -> answered(kind, model) -> reported / check script written    *)
EXTENDS Transform, StrSem, Escapes

\* the environment of a model: a sequence of [n |-> name, v |-> value]; values are tagged
\* [s |-> word], [i |-> n], [b |-> 0/1]
Val(v) == IF DOMAIN v = {"s"} THEN v.s ELSE IF DOMAIN v = {"i"} THEN v.i ELSE v.b = 1
Env(m0) == LET m == TLCEval(m0) IN TLCEval([n \in {m[k].n : k \in 1..Len(m)} |-> Val(m[CHOOSE k \in 1..Len(m) : m[k].n = n].v)])
Asserts(cmds) == MapS(LAMBDA c : c.a[2], SelectSeq(cmds, LAMBDA c : Head1(c) = "assert"))
Holds(cmds, env0) == LET env == TLCEval(env0) IN \A k \in 1..Len(Asserts(cmds)) : Ev(Asserts(cmds)[k], env)

\* new names of the constants that a string function of the script is applied to
Affected(cmds) == UNION {c.v : c \in Contexts(cmds)}
\* the inverse of the character map where it is determined
CMap(map) == Rng1(map.char)
Un(map, c) == LET S == {x[1] : x \in {y \in CMap(map) : y[2] = c}} IN IF S = {} THEN c ELSE CHOOSE x \in S : TRUE
UnW(map, w) == [k \in 1..Len(w) |-> Un(map, w[k])]
Det(map, c) == \E x \in CMap(map) : x[2] = c
\* v is the value that w is reconstructed as: inverse where it is determined, character by character
UnMapped(map, w, v) ==
    /\ Len(w) = Len(v)
    /\ \A k \in 1..Len(w) : Det(map, w[k]) => v[k] = Un(map, w[k])
    /\ \A j, k \in 1..Len(w) : (w[j] = w[k]) = (v[j] = v[k])

\* names of a script by their transformed names
Back(cmds, t) == CHOOSE s \in DOMAIN Alpha(cmds) : Alpha(cmds)[s] = t
\* the modelled string constants to be asserted: transformed name -> value
ToAssert(cmds, model) == LET names == TLCEval(Affected(cmds))
                         IN  {k \in 1..Len(model) : DOMAIN model[k].v = {"s"} /\ model[k].n \in names}
IsEqn(c) == Head1(c) = "assert" /\ Head1(c.a[2]) = "=" /\ Len(c.a[2].a) = 3 /\ IsSym(c.a[2].a[2]) /\ IsStr(c.a[2].a[3])
RECURSIVE Splits(_,_,_)
\* position of the equations: n of them directly before each check-sat; <<ok, equations>>
Splits(cmds, out, n) ==
    IF cmds = <<>> THEN IF out = <<>> THEN <<TRUE, <<>>>> ELSE <<FALSE, <<>>>>
    ELSE IF Head1(Head(cmds)) = "check-sat"
    THEN IF Len(out) < n + 1 THEN <<FALSE, <<>>>>
         ELSE IF (\A k \in 1..n : IsEqn(out[k])) /\ Head1(out[n + 1]) = "check-sat"
         THEN LET r == Splits(Tail(cmds), SubSeq(out, n + 2, Len(out)), n) IN <<r[1], <<SubSeq(out, 1, n)>> \o r[2]>>
         ELSE <<FALSE, <<>>>>
    ELSE IF out = <<>> THEN <<FALSE, <<>>>>
    ELSE IF AlignCmd(Head(cmds), Head(out)) \subseteq {x \in AlignCmd(Head(cmds), Head(out)) : x.k = "lit" /\ x.l = x.m}
    THEN Splits(Tail(cmds), Tail(out), n)
    ELSE <<FALSE, <<>>>>

\* what may follow: e = [answer, model, r, file (S-expressions), tr (transformed script), map]
Outcome(cmds, e) ==
    LET kind == e.answer IN
    IF kind # "model" THEN
        IF e.r # kind THEN "answered " \o kind \o ", reported " \o e.r
        ELSE IF e.wrote THEN "a check script is written without a model" ELSE ""
    ELSE IF e.r # "built" THEN "a model, reported " \o e.r
    ELSE LET idx == ToAssert(cmds, e.model)
             n == Cardinality(idx)
             sp == Splits(cmds, e.file, n)
             eqs == sp[2]
             Eqn(k) == LET m == e.model[k] IN Sym(Back(cmds, m.n))
             val(q, s) == DecodeModern((CHOOSE c \in Rng1(q) : c.a[2].a[2].t = s).a[2].a[3].s)
             names(q) == [k \in 1..Len(q) |-> q[k].a[2].a[2].t]
             want == {Back(cmds, e.model[k].n) : k \in idx}
             env(q) == LET recon == [s \in want |-> val(q, s)] IN
                       recon @@ [s \in {Back(cmds, e.model[k].n) : k \in 1..Len(e.model)} |->
                                    LET j == CHOOSE k \in 1..Len(e.model) : Back(cmds, e.model[k].n) = s
                                        v == e.model[j].v
                                    IN IF DOMAIN v = {"s"} THEN UnW(e.map, v.s) ELSE Val(v)]
         IN IF ~sp[1] THEN "the check script is not the original plus the equalities"
            ELSE IF \E q \in Rng1(eqs) : Rng1(names(q)) # want THEN "the equalities are not about the modelled constants"
            ELSE IF \E q \in Rng1(eqs) : \E k \in idx :
                       ~UnMapped(e.map, e.model[k].v.s, val(q, Back(cmds, e.model[k].n)))
                 THEN "a value is not un-mapped"
            ELSE IF e.full /\ Holds(e.tr, Env(e.model)) /\ \E q \in Rng1(eqs) : ~Holds(cmds, env(q))
                 THEN "the model satisfied the transformed script, but the check script is not satisfied"
            ELSE ""
\* the check was about a model of the transformed script
NonVacuous(e) == e.answer = "model" /\ e.r = "built" /\ e.full /\ Holds(e.tr, Env(e.model))
=============================================================================
