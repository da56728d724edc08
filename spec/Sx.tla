--------------------------------- MODULE Sx ---------------------------------
(* S-expressions: the abstract syntax shared by all specifications.         *)
(*   [t |-> "sym"]  symbol or keyword     [i |-> 5]         numeral          *)
(*   [s |-> <<97>>] string literal (code points)                             *)
(*   [a |-> <<...>>] list                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sym(t)  == [t |-> t]
Num(n)  == [i |-> n]
Str(cs) == [s |-> cs]
Ls(q)   == [a |-> q]
App(f, q) == [a |-> <<Sym(f)>> \o q]

IsSym(x)  == DOMAIN x = {"t"}
IsNum(x)  == DOMAIN x = {"i"}
IsStr(x)  == DOMAIN x = {"s"}
IsList(x) == DOMAIN x = {"a"}
IsApp(x)  == IsList(x) /\ Len(x.a) > 0 /\ IsSym(x.a[1])
IsSymT(x, t) == IsSym(x) /\ x.t = t
Head1(x)  == IF IsApp(x) THEN x.a[1].t ELSE ""
Args(x)   == SubSeq(x.a, 2, Len(x.a))
IsCmd(x, c) == IsApp(x) /\ x.a[1].t = c
\* the set of elements of a sequence
Rng1(q) == {q[k] : k \in 1..Len(q)}

\* an integer constant as a term
RECURSIVE FlattenS(_)
FlattenS(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o FlattenS(Tail(qq))
IntT(n) == IF n < 0 THEN App("-", <<Num(-n)>>) ELSE Num(n)
MapS(Op(_), q) == [k \in 1..Len(q) |-> Op(q[k])]
FilterS(Op(_), q) == SelectSeq(q, Op)
RECURSIVE SumS(_)
SumS(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumS(Tail(q))
=============================================================================
