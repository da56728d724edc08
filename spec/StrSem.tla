------------------------------- MODULE StrSem -------------------------------
(* Semantics of terms over strings, regular expressions, integers and        *)
(* Booleans (SMT-LIB 2.6 theory of Unicode strings): Ev(term, environment).   *)
(* Strings are sequences of code points; integers stay within 32 bits, so     *)
(* numerals of more than nine digits are cut off (both scripts of a case have  *)
(* the same digits there).                                                    *)
EXTENDS Sx

SubAt(w, u, i) == i + Len(u) <= Len(w) /\ SubSeq(w, i + 1, i + Len(u)) = u     \* u occurs in w at offset i
Occ(w, u, from) == {i \in from..(Len(w) - Len(u)) : SubAt(w, u, i)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
IndexOf(w, u, i) == IF i < 0 \/ i > Len(w) \/ Occ(w, u, i) = {} THEN -1 ELSE MinS(Occ(w, u, i))
Replace(w, u, v) == LET i == IndexOf(w, u, 0) IN
    IF i < 0 THEN w ELSE SubSeq(w, 1, i) \o v \o SubSeq(w, i + Len(u) + 1, Len(w))
RECURSIVE ReplaceAll(_,_,_)
ReplaceAll(w, u, v) ==
    IF u = <<>> THEN w
    ELSE LET i == IndexOf(w, u, 0) IN
         IF i < 0 THEN w ELSE SubSeq(w, 1, i) \o v \o ReplaceAll(SubSeq(w, i + Len(u) + 1, Len(w)), u, v)
Substr(w, i, n) == IF i < 0 \/ i >= Len(w) \/ n <= 0 THEN <<>>
                   ELSE SubSeq(w, i + 1, IF n >= Len(w) - i THEN Len(w) ELSE i + n)
Dig(c) == c \in 48..57
RECURSIVE DecV(_)
DecV(w) == IF w = <<>> THEN 0 ELSE DecV(SubSeq(w, 1, Len(w) - 1)) * 10 + (w[Len(w)] - 48)
ToInt(w) == IF w = <<>> \/ \E k \in 1..Len(w) : ~Dig(w[k]) THEN -1 ELSE IF Len(w) > 9 THEN DecV(SubSeq(w, 1, 9)) ELSE DecV(w)
RECURSIVE FromNat(_)
FromNat(n) == IF n < 10 THEN <<48 + n>> ELSE FromNat(n \div 10) \o <<48 + (n % 10)>>
FromInt(n) == IF n < 0 THEN <<>> ELSE FromNat(n)

\* ------------------------------------------------------------------ terms
ROp(x) == IF ~IsList(x) THEN x.t
          ELSE IF IsSym(x.a[1]) THEN x.a[1].t ELSE x.a[1].a[2].t
Sat9(n) == IF n > 1000000 THEN 1000000 ELSE IF n < -1000000 THEN -1000000 ELSE n    \* keeps products within 32 bits
RECURSIVE Ev(_,_), Ends(_,_,_,_), StarE(_,_,_,_,_), RepE(_,_,_,_,_,_), FirstM(_,_,_,_,_), ReplFrom(_,_,_,_,_), CatE(_,_,_,_)
\* the ends j such that the characters i+1..j of w are a word of r
Ends(r, w, i, env) ==
    LET f == ROp(r)
        sub(k) == r.a[k + 1]
        n == Len(w)
    IN CASE f = "re.all" -> i..n
         [] f = "re.none" -> {}
         [] f = "re.allchar" -> IF i < n THEN {i + 1} ELSE {}
         [] f = "str.to_re" -> LET u == Ev(sub(1), env) IN IF SubAt(w, u, i) THEN {i + Len(u)} ELSE {}
         [] f = "re.range" -> LET a == Ev(sub(1), env)
                                  b == Ev(sub(2), env)
                              IN IF Len(a) = 1 /\ Len(b) = 1 /\ i < n /\ w[i + 1] \in a[1]..b[1] THEN {i + 1} ELSE {}
         [] f = "re.union" -> UNION {Ends(sub(k), w, i, env) : k \in 1..(Len(r.a) - 1)}
         [] f = "re.inter" -> LET E == [k \in 1..(Len(r.a) - 1) |-> Ends(sub(k), w, i, env)] IN {j \in i..n : \A k \in DOMAIN E : j \in E[k]}
         [] f = "re.comp" -> (i..n) \ Ends(sub(1), w, i, env)
         [] f = "re.diff" -> Ends(sub(1), w, i, env) \ Ends(sub(2), w, i, env)
         [] f = "re.opt" -> {i} \cup Ends(sub(1), w, i, env)
         [] f = "re.*" -> StarE(sub(1), w, {i}, {i}, env)
         [] f = "re.+" -> LET E == Ends(sub(1), w, i, env) IN StarE(sub(1), w, E, E, env)
         [] f = "re.^" -> RepE(sub(1), w, {i}, r.a[1].a[3].i, r.a[1].a[3].i, env)
         [] f = "re.loop" -> RepE(sub(1), w, {i}, r.a[1].a[3].i, r.a[1].a[4].i, env)
         [] f = "re.++" -> CatE(Tail(r.a), w, {i}, env)
CatE(rs, w, S, env) == IF rs = <<>> \/ S = {} THEN S ELSE CatE(Tail(rs), w, UNION {Ends(Head(rs), w, j, env) : j \in S}, env)
StarE(r, w, front, seen, env) ==
    IF front = {} THEN seen
    ELSE LET nxt == UNION {Ends(r, w, j, env) : j \in front} \ seen IN StarE(r, w, nxt, seen \cup nxt, env)
\* between lo and hi repetitions
RepE(r, w, S, lo, hi, env) ==
    IF hi < lo \/ S = {} THEN {}
    ELSE IF hi = 0 THEN S
    ELSE LET nxt == RepE(r, w, UNION {Ends(r, w, j, env) : j \in S}, IF lo = 0 THEN 0 ELSE lo - 1, hi - 1, env)
         IN IF lo = 0 THEN S \cup nxt ELSE nxt
ReM(r, w, env) == Len(w) \in Ends(r, w, 0, env)
\* <<offset, end>> of the first shortest match of at least m characters from offset i on, or <<-1, -1>>
FirstM(r, w, env, i, m) ==
    IF i > Len(w) THEN <<-1, -1>>
    ELSE LET S == {j \in Ends(r, w, i, env) : j >= i + m} IN
         IF S # {} THEN <<i, MinS(S)>> ELSE FirstM(r, w, env, i + 1, m)
ReplRe(w, r, v, env) == LET f == FirstM(r, w, env, 0, 0) IN
    IF f[1] < 0 THEN w ELSE SubSeq(w, 1, f[1]) \o v \o SubSeq(w, f[2] + 1, Len(w))
ReplFrom(w, r, v, env, i) == LET f == FirstM(r, w, env, i, 1) IN
    IF f[1] < 0 THEN SubSeq(w, i + 1, Len(w)) ELSE SubSeq(w, i + 1, f[1]) \o v \o ReplFrom(w, r, v, env, f[2])
ReplReAll(w, r, v, env) == ReplFrom(w, r, v, env, 0)

Ev(x, env) ==
    IF IsStr(x) THEN x.s
    ELSE IF IsNum(x) THEN x.i
    ELSE IF IsSym(x) THEN IF x.t = "true" THEN TRUE ELSE IF x.t = "false" THEN FALSE ELSE env[x.t]
    ELSE LET f == x.a[1].t
             n == Len(x.a) - 1
             v(k) == Ev(x.a[k + 1], env)
         IN
    CASE f = "and" -> \A k \in 1..n : v(k)
      [] f = "or" -> \E k \in 1..n : v(k)
      [] f = "not" -> ~v(1)
      [] f = "=>" -> IF n = 2 THEN (v(1) => v(2)) ELSE (v(1) => Ev(Ls(<<x.a[1]>> \o SubSeq(x.a, 3, n + 1)), env))
      [] f = "xor" -> IF n = 2 THEN v(1) # v(2) ELSE Ev(Ls(<<x.a[1]>> \o SubSeq(x.a, 2, n)), env) # v(n)
      [] f = "ite" -> IF v(1) THEN v(2) ELSE v(3)
      [] f = "let" -> Ev(x.a[3], [s \in {x.a[2].a[k].a[1].t : k \in 1..Len(x.a[2].a)} |->
                            Ev(x.a[2].a[CHOOSE k \in 1..Len(x.a[2].a) : x.a[2].a[k].a[1].t = s].a[2], env)] @@ env)
      [] f = "=" -> \A k \in 1..(n - 1) : v(k) = v(k + 1)
      [] f = "distinct" -> \A j \in 1..n : \A k \in (j + 1)..n : v(j) # v(k)
      [] f = "+" -> Sat9(SumS([k \in 1..n |-> v(k)]))
      [] f = "-" -> IF n = 1 THEN 0 - v(1) ELSE Sat9(v(1) - SumS([k \in 1..(n - 1) |-> v(k + 1)]))
      [] f = "*" -> Sat9((v(1) % 30000) * (v(2) % 30000))
      [] f = "<" -> v(1) < v(2)
      [] f = "<=" -> v(1) <= v(2)
      [] f = ">" -> v(1) > v(2)
      [] f = ">=" -> v(1) >= v(2)
      [] f = "str.++" -> FlattenS([k \in 1..n |-> v(k)])
      [] f = "str.len" -> Len(v(1))
      [] f = "str.at" -> Substr(v(1), v(2), 1)
      [] f = "str.substr" -> Substr(v(1), v(2), v(3))
      [] f = "str.replace" -> Replace(v(1), v(2), v(3))
      [] f = "str.replace_all" -> ReplaceAll(v(1), v(2), v(3))
      [] f = "str.replace_re" -> ReplRe(v(1), x.a[3], v(3), env)
      [] f = "str.replace_re_all" -> ReplReAll(v(1), x.a[3], v(3), env)
      [] f = "str.indexof" -> IndexOf(v(1), v(2), v(3))
      [] f = "str.prefixof" -> SubAt(v(2), v(1), 0)
      [] f = "str.suffixof" -> Len(v(1)) <= Len(v(2)) /\ SubAt(v(2), v(1), Len(v(2)) - Len(v(1)))
      [] f = "str.contains" -> Occ(v(1), v(2), 0) # {}
      [] f = "str.is_digit" -> Len(v(1)) = 1 /\ Dig(v(1)[1])
      [] f = "str.to_int" -> ToInt(v(1))
      [] f = "str.from_int" -> FromInt(v(1))
      [] f = "str.in_re" -> ReM(x.a[3], v(1), env)
=============================================================================
