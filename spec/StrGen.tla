------------------------------- MODULE StrGen -------------------------------
(* Typed grammar of terms over strings, regular expressions, integers and   *)
(* Booleans.  Sorts: "S" "R" "I" "B"; argument classes "N" (numeral),       *)
(* "C" (single-character literal), "L" (string literal), "V" (String var).  *)
(* cx = [ops, vS, vI, vB, vR, lits, chars, nums, leafp, lets]                *)
EXTENDS Sx, Rng

Op(f, r, a) == [f |-> Sym(f), r |-> r, a |-> a]
Ix(f, r, a) == [f |-> f, r |-> r, a |-> a]
Idx(q) == Ls(<<Sym("_")>> \o q)

CoreOps ==
 << Op("and","B",<<"B","B">>), Op("or","B",<<"B","B">>), Op("not","B",<<"B">>), Op("=>","B",<<"B","B">>),
    Op("or","B",<<"B","B","B">>), Op("xor","B",<<"B","B">>) >>
EqOps ==
 << Op("=","B",<<"S","S">>), Op("distinct","B",<<"S","S">>), Op("=","B",<<"S","S","S">>) >>
IteOps ==
 << Op("ite","S",<<"B","S","S">>), Op("ite","B",<<"B","B","B">>), Op("ite","I",<<"B","I","I">>) >>
StrOps ==
 << Op("str.++","S",<<"S","S">>), Op("str.++","S",<<"S","S","S">>), Op("str.at","S",<<"S","I">>),
    Op("str.substr","S",<<"S","I","I">>), Op("str.replace","S",<<"S","S","S">>),
    Op("str.replace_all","S",<<"S","S","S">>), Op("str.len","I",<<"S">>),
    Op("str.indexof","I",<<"S","S","I">>), Op("str.prefixof","B",<<"S","S">>),
    Op("str.suffixof","B",<<"S","S">>), Op("str.contains","B",<<"S","S">>),
    Op("str.is_digit","B",<<"S">>), Op("str.<","B",<<"S","S">>), Op("str.<=","B",<<"S","S">>),
    Op("str.to_code","I",<<"S">>), Op("str.from_code","S",<<"I">>),
    Op("str.replace_re","S",<<"S","R","S">>), Op("str.replace_re_all","S",<<"S","R","S">>) >>
ReOps ==
 << Op("re.++","R",<<"R","R">>), Op("re.union","R",<<"R","R">>), Op("re.inter","R",<<"R","R">>),
    Op("re.*","R",<<"R">>), Op("re.+","R",<<"R">>), Op("re.opt","R",<<"R">>), Op("re.comp","R",<<"R">>),
    Op("re.diff","R",<<"R","R">>), Op("re.range","R",<<"C","C">>),
    Ix(Idx(<<Sym("re.loop"), Num(1), Num(3)>>), "R", <<"R">>), Ix(Idx(<<Sym("re.^"), Num(2)>>), "R", <<"R">>) >>
ModernConv ==
 << Op("str.to_re","R",<<"S">>), Op("str.in_re","B",<<"S","R">>), Op("str.to_int","I",<<"S">>),
    Op("str.from_int","S",<<"I">>) >>
LegacyConv ==
 << Op("str.to.re","R",<<"S">>), Op("str.in.re","B",<<"S","R">>), Op("str.to.int","I",<<"S">>),
    Op("int.to.str","S",<<"I">>), Op("re.loop","R",<<"R","N","N">>) >>
ArithOps ==
 << Op("+","I",<<"I","I">>), Op("-","I",<<"I","I">>), Op("*","I",<<"I","I">>), Op("-","I",<<"I">>),
    Op("<","B",<<"I","I">>), Op("<=","B",<<"I","I">>), Op(">","B",<<"I","I">>), Op(">=","B",<<"I","I">>) >>
IntEq == << Op("=","B",<<"I","I">>) >>

OfSort(q, r) == SelectSeq(q, LAMBDA o : o.r = r)

Leaf(s, r, cx) ==
    CASE r \in {"S"} -> IF Len(cx.vS) > 0 /\ (Chance(s, 50) \/ Len(cx.lits) = 0) THEN Sym(Elem(Mix(s,1), cx.vS))
                        ELSE Str(Elem(Mix(s,1), cx.lits))
      [] r = "L" -> Str(Elem(Mix(s,1), cx.lits))
      [] r = "V" -> Sym(Elem(Mix(s,1), cx.vS))
      [] r = "P" -> Sym(Elem(Mix(s,1), cx.vB))
      [] r = "C" -> Str(<<Elem(Mix(s,1), cx.chars)>>)
      [] r = "N" -> Num(Elem(Mix(s,1), cx.nums))
      [] r = "I" -> IF Len(cx.vI) > 0 /\ Chance(s, 60) THEN Sym(Elem(Mix(s,1), cx.vI))
                    ELSE Num(Elem(Mix(s,1), cx.nums))
      [] r = "B" -> IF Len(cx.vB) > 0 /\ Chance(s, 80) THEN Sym(Elem(Mix(s,1), cx.vB))
                    ELSE Sym(IF Chance(Mix(s,2), 50) THEN "true" ELSE "false")
      [] r = "R" -> Sym(Elem(Mix(s,1), cx.vR))
      [] OTHER -> cx.fixed[r]

RECURSIVE GenT(_,_,_,_)
GenT(s, d, r, cx) ==
    LET cand == IF r \in {"S","I","B","R"} THEN OfSort(cx.ops, r) ELSE <<>>
    IN  IF d = 0 \/ Len(cand) = 0 \/ (r \notin {"B"} /\ Chance(Mix(s,9), cx.leafp))
        THEN IF r = "B" /\ d = 0 /\ Len(cand) > 0 /\ Len(cx.vB) = 0
             THEN LET flat == SelectSeq(cand, LAMBDA o : \A k \in 1..Len(o.a) : o.a[k] # "B")
                  IN  IF Len(flat) = 0 THEN Leaf(s, r, cx)
                      ELSE LET o == Elem(Mix(s,3), flat)
                           IN Ls(<<o.f>> \o [k \in 1..Len(o.a) |-> Leaf(Mix(s, 20+k), o.a[k], cx)])
             ELSE Leaf(s, r, cx)
        ELSE IF cx.lets < 0 /\ r = "B" /\ Chance(Mix(s,4), 0 - cx.lets)     \* no literal bound by a let
        THEN LET nm == "lt" \o ToString(d)
                 b == Pick(Mix(s,5), 3)
                 bt == CASE b = 0 -> App("str.++", <<Leaf(Mix(s,6), "V", cx), Leaf(Mix(s,8), "V", cx)>>)
                         [] b = 1 -> GenT(Mix(s,6), d-1, "I", cx) [] b = 2 -> GenT(Mix(s,6), d-1, "B", cx)
                 cx2 == CASE b = 0 -> [cx EXCEPT !.vS = @ \o <<nm, nm>>] [] b = 1 -> [cx EXCEPT !.vI = @ \o <<nm, nm>>]
                          [] b = 2 -> [cx EXCEPT !.vB = @ \o <<nm>>]
             IN  Ls(<<Sym("let"), Ls(<<Ls(<<Sym(nm), bt>>)>>), GenT(Mix(s,7), d-1, r, cx2)>>)
        ELSE IF cx.lets > 0 /\ Chance(Mix(s,4), cx.lets)
        THEN LET nm == "lt" \o ToString(d)
                 bs == IF Chance(Mix(s,5), 50) THEN "S" ELSE "I"
                 bt == GenT(Mix(s,6), d-1, bs, cx)
                 cx2 == IF bs = "S" THEN [cx EXCEPT !.vS = @ \o <<nm, nm>>] ELSE [cx EXCEPT !.vI = @ \o <<nm, nm>>]
             IN  Ls(<<Sym("let"), Ls(<<Ls(<<Sym(nm), bt>>)>>), GenT(Mix(s,7), d-1, r, cx2)>>)
        ELSE LET o == Elem(Mix(s,3), cand)
             IN  Ls(<<o.f>> \o [k \in 1..Len(o.a) |-> GenT(Mix(s, 20+k), d-1, o.a[k], cx)])
=============================================================================
