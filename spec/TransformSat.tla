---------------------------- MODULE TransformSat ----------------------------
(* Exact satisfiability of two fragments of string constraints, by a finite  *)
(* abstraction of the infinitely many strings.  Fragment A: equality,         *)
(* distinct, contains, prefixof, suffixof between constants and literals,     *)
(* equality of constants.  Fragment B: equality, distinct and comparisons of  *)
(* lengths.  A string is represented by a word when it is one of finitely     *)
(* many candidates, and otherwise by a class of which there are arbitrarily   *)
(* many members: (A) separators that occur in no literal around a set of      *)
(* contained literals; (B) all strings of one positive length.  Fragment D:    *)
(* equality, distinct, str.is_digit and comparisons of str.to_int: a string is  *)
(* a literal, a numeral of a relevant value with some leading zeros, or one of   *)
(* arbitrarily many words that are no numerals.                                *)
EXTENDS Transform, Escapes

\* ------------------------------------------------------------------ terms
RECURSIVE AllS(_)
AllS(x) == IF IsStr(x) THEN {x.s} ELSE IF IsList(x) THEN UNION {AllS(y) : y \in Rng1(x.a)} ELSE {}
RECURSIVE SumN(_)
SumN(x) == IF IsNum(x) THEN x.i ELSE IF IsList(x) THEN SumS([k \in 1..Len(x.a) |-> SumN(x.a[k])]) ELSE 0
RECURSIVE HasOp(_,_)
HasOp(x, fs) == IsList(x) /\ (OpOf(x) \in fs \/ \E y \in Rng1(x.a) : HasOp(y, fs))
SubW(w) == {SubSeq(w, i, j) : i \in 1..Len(w) + 1, j \in 0..Len(w)}

SepC == 1114111    \* a character that no literal contains

\* value of a string operand: a word, with separators for the generic ones, tagged with a copy number
\* [w |-> word, n |-> copy]   words: n = 0
RECURSIVE FlatJoin(_)
FlatJoin(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN x \o <<SepC>> \o FlatJoin(S \ {x})
Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Rep(_,_)
Rep(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)

LongestW(L) == IF L = {} THEN 0 ELSE CHOOSE n \in {Len(w) : w \in L} : \A w \in L : Len(w) <= n

\* candidates of fragment A (closed under the atoms of the script, see DESIGN.md)
CandA(t, nv) ==
    LET L == AllS(t)
        words == L \cup (IF HasOp(t, {"str.contains", "str.prefixof", "str.suffixof"}) THEN UNION {SubW(l) : l \in L} ELSE {})
        K == IF HasOp(t, {"str.contains"}) THEN SUBSET (L \ {<<>>}) ELSE {{}}
        Pf == IF HasOp(t, {"str.prefixof"}) THEN L \cup {<<>>} ELSE {<<>>}
        Sf == IF HasOp(t, {"str.suffixof"}) THEN L \cup {<<>>} ELSE {<<>>}
    IN  {[w |-> w, n |-> 0] : w \in words} \cup
        {[w |-> p \o <<SepC>> \o FlatJoin(k) \o s, n |-> 1] : p \in Pf, k \in K, s \in Sf}
CandB(t, nv) ==
    LET L == AllS(t) IN
    {[w |-> w, n |-> 0] : w \in L \cup {<<>>}} \cup {[w |-> Rep(SepC, k), n |-> 1] : k \in 1..(SumN(t) + nv + 1 + LongestW(L))}
IsB(t) == HasOp(t, {"str.len"})

\* fragment D
IsD(t) == HasOp(t, {"str.to_int", "str.is_digit", "str.from_int", "str.to_code"})
RECURSIVE Dec(_)
Dec(v) == IF v < 10 THEN <<48 + v>> ELSE Dec(v \div 10) \o <<48 + (v % 10)>>
RECURSIVE Val(_,_)
Val(w, n) == IF n = 0 THEN 0 ELSE 10 * Val(w, n - 1) + w[n] - 48
ToInt(w) == IF AllDig(w) THEN Val(w, Len(w)) ELSE 0 - 1
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
RECURSIVE NumsOf(_)
NumsOf(x) == IF IsNum(x) THEN {x.i} ELSE IF IsList(x) THEN UNION {NumsOf(y) : y \in Rng1(x.a)} ELSE {}
LitsD(t) == AllS(t) \cup {<<>>} \cup (IF HasOp(t, {"str.from_int"}) THEN {Dec(v) : v \in {v \in NumsOf(t) : v >= 0}} ELSE {})
\* every gap between relevant values can be shortened, so values near the constants are enough
CandD(t, nv) ==
    LET L == LitsD(t)
        base == {0, 9} \cup NumsOf(t) \cup {ToInt(w) : w \in L}
        vals == {v \in UNION {{b + d : d \in (0 - nv - 1)..(nv + 1)} : b \in base} : v >= 0}
        z == nv + Cardinality({w \in L : AllDig(w)}) + 1
    IN {[w |-> w, n |-> 0] : w \in L} \cup {[w |-> Zeros(k) \o Dec(v), n |-> 0] : v \in vals, k \in 0..z}
       \cup {[w |-> <<SepC, SepC>>, n |-> 1]}
       \cup (IF HasOp(t, {"str.to_code"}) THEN {[w |-> <<v>>, n |-> 0] : v \in vals} ELSE {})

\* ------------------------------------------------------------------ evaluation
SVal(x, env) == IF IsStr(x) THEN [w |-> x.s, n |-> 0] ELSE IF IsSym(x) THEN env[x.t]
                ELSE \* str.from_int of a constant
                     LET a == x.a[2]
                         v == IF IsNum(a) THEN a.i ELSE 0 - a.a[2].i IN [w |-> IF v < 0 THEN <<>> ELSE Dec(v), n |-> 0]
RECURSIVE IVal(_,_)
IVal(x, env) == IF IsNum(x) THEN x.i
                ELSE IF OpOf(x) = "str.len" THEN Len(SVal(x.a[2], env).w)
                ELSE IF OpOf(x) = "str.to_int" THEN ToInt(SVal(x.a[2], env).w)
                ELSE IF OpOf(x) = "str.to_code" THEN LET w == SVal(x.a[2], env).w IN (IF Len(w) = 1 THEN w[1] ELSE 0 - 1)
                ELSE IF OpOf(x) = "+" THEN SumS([k \in 2..Len(x.a) |-> IVal(x.a[k], env)])
                ELSE 0 - IVal(x.a[2], env)
IsI(x) == IsNum(x) \/ OpOf(x) \in {"str.len", "str.to_int", "str.to_code", "+", "-"}
IsS(x, sv) == IsStr(x) \/ OpOf(x) = "str.from_int" \/ (IsSym(x) /\ x.t \in sv)
RECURSIVE BVal(_,_,_)
BVal(x, env, sv) ==
    IF IsSym(x) THEN (IF x.t = "true" THEN TRUE ELSE IF x.t = "false" THEN FALSE ELSE env[x.t])
    ELSE LET f == OpOf(x)
             a == Args(x)
             n == Len(a)
         IN CASE f = "not" -> ~BVal(a[1], env, sv)
              [] f = "and" -> \A k \in 1..n : BVal(a[k], env, sv)
              [] f = "or"  -> \E k \in 1..n : BVal(a[k], env, sv)
              [] f = "=>"  -> BVal(a[1], env, sv) => BVal(a[2], env, sv)
              [] f = "xor" -> BVal(a[1], env, sv) # BVal(a[2], env, sv)
              [] f = "ite" -> IF BVal(a[1], env, sv) THEN BVal(a[2], env, sv) ELSE BVal(a[3], env, sv)
              [] f = "=" /\ IsS(a[1], sv) -> \A k \in 2..n : SVal(a[k], env) = SVal(a[1], env)
              [] f = "=" /\ IsI(a[1]) -> \A k \in 2..n : IVal(a[k], env) = IVal(a[1], env)
              [] f = "=" -> \A k \in 2..n : BVal(a[k], env, sv) = BVal(a[1], env, sv)
              [] f = "distinct" /\ IsS(a[1], sv) -> \A j, k \in 1..n : j < k => SVal(a[j], env) # SVal(a[k], env)
              [] f = "distinct" -> \A j, k \in 1..n : j < k => IVal(a[j], env) # IVal(a[k], env)
              [] f = "str.contains" -> ContW(SVal(a[1], env).w, SVal(a[2], env).w)
              [] f = "str.prefixof" -> StartsW(SVal(a[2], env).w, SVal(a[1], env).w)
              [] f = "str.suffixof" -> EndsW(SVal(a[2], env).w, SVal(a[1], env).w)
              [] f = "str.is_digit" -> LET w == SVal(a[1], env).w IN Len(w) = 1 /\ IsDig(w[1])
              [] f = "<"  -> IVal(a[1], env) < IVal(a[2], env)
              [] f = "<=" -> IVal(a[1], env) <= IVal(a[2], env)
              [] f = ">"  -> IVal(a[1], env) > IVal(a[2], env)
              [] f = ">=" -> IVal(a[1], env) >= IVal(a[2], env)

\* ------------------------------------------------------------------ the unary atoms, as predicates of one string
RECURSIVE Atoms(_,_)
Atoms(x, sv) ==
    IF ~IsList(x) THEN {}
    ELSE IF OpOf(x) \in {"not", "and", "or", "=>", "xor", "ite"} \/ (OpOf(x) = "=" /\ ~IsS(x.a[2], sv) /\ ~IsI(x.a[2]))
         THEN UNION {Atoms(y, sv) : y \in Rng1(Args(x))}
    ELSE {x}
RECURSIVE SymsOf(_)
SymsOf(x) == IF IsSym(x) THEN {x.t} ELSE IF IsList(x) THEN UNION {SymsOf(y) : y \in Rng1(Args(x))} ELSE {}
RECURSIVE TakeN(_,_)
TakeN(G, m) == IF m = 0 THEN {} ELSE LET c == CHOOSE c \in G : TRUE IN {c} \cup TakeN(G \ {c}, m - 1)
\* candidates with the same behaviour under every unary atom are interchangeable; keep nv of each
Reduce(t, sv, nv) ==
    LET C == IF IsD(t) THEN CandD(t, nv) ELSE IF IsB(t) THEN CandB(t, nv) ELSE CandA(t, nv)
        vis == IF IsD(t) THEN LitsD(t) ELSE AllS(t)
        at == Atoms(t, sv)
        un == {<<a, v>> \in at \X sv : SymsOf(a) \cap sv = {v}}
        bin == \E a \in at : Cardinality(SymsOf(a) \cap sv) > 1
        binlen == bin /\ IsB(t)
        Key(c) == [u |-> {q \in un : BVal(q[1], (q[2] :> c), sv)}, n |-> IF bin /\ IsD(t) THEN ToInt(c.w) ELSE IF binlen THEN Len(c.w) ELSE 0,
                   l |-> \* literals in n-ary mixed atoms must stay visible
                         IF bin /\ c.n = 0 /\ c.w \in vis THEN c.w ELSE <<SepC>>]
        keyed == {<<Key(c), c>> : c \in C}
        keys == {x[1] : x \in keyed}
        Grp(k) == {x[2] : x \in {y \in keyed : y[1] = k}}
        Some2(k) == LET G == Grp(k)
                        g == {c \in G : c.n # 0}
                        m == IF bin THEN nv ELSE 1
                    IN IF g # {} THEN LET c == CHOOSE c \in g : TRUE IN {[c EXCEPT !.n = j] : j \in 1..m}
                       ELSE IF Cardinality(G) <= m THEN G
                       ELSE TakeN(G, m)
    IN UNION {Some2(k) : k \in keys}
\* copies of one generic class are different strings of the same behaviour

RECURSIVE SatV(_,_,_,_,_,_)
SatV(t, vs, bs, U, env, sv) ==
    IF vs # {} THEN LET v == CHOOSE v \in vs : TRUE IN \E u \in U : SatV(t, vs \ {v}, bs, U, (v :> u) @@ env, sv)
    ELSE IF bs # {} THEN LET v == CHOOSE v \in bs : TRUE IN \E u \in BOOLEAN : SatV(t, vs, bs \ {v}, U, (v :> u) @@ env, sv)
    ELSE BVal(t, env, sv)
Conj(cmds) == App("and", [k \in 1..Len(SelectSeq(cmds, LAMBDA c : Head1(c) = "assert")) |->
                              SelectSeq(cmds, LAMBDA c : Head1(c) = "assert")[k].a[2]])
\* what the literals denote
RECURSIVE Denoted(_)
Denoted(x) == IF IsStr(x) THEN Str(DecodeModern(x.s)) ELSE IF IsList(x) THEN Ls([k \in 1..Len(x.a) |-> Denoted(x.a[k])]) ELSE x
Satisfiable(cmds) ==
    LET t == Denoted(Conj(cmds))
        sv == StrVars(cmds) \cap SymsOf(t)
        bs == (Rng1(DeclNames(cmds)) \cap SymsOf(t)) \ sv
    IN SatV(t, sv, bs, Reduce(t, sv, Cardinality(sv)), ("true" :> TRUE), sv)
=============================================================================
