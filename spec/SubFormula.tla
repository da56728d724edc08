----------------------------- MODULE SubFormula -----------------------------
(* The sub-formula listing as a recursive transducer: every function         *)
(* application of the terms of the script, arguments first, in script order,  *)
(* with the names of variables replaced by v0, v1, ... in order of first      *)
(* occurrence in the text of the entry (binders included).                    *)
EXTENDS Sx
\* operators without arguments are applications of arity 0
Nullary == {"true", "false", "re.all", "re.none", "re.allchar"}
IsBind(x) == Head1(x) \in {"let", "forall", "exists"}
Index(x)  == IsList(x) /\ Head1(x) = "_"

\* names of variables in the order of first occurrence
AddV(v, q) == IF \E k \in 1..Len(q) : q[k] = v THEN q ELSE Append(q, v)
RECURSIVE VarsT(_,_), VarsQ(_,_), VarsB(_,_), VarsP(_,_)
VarsQ(ts, q) == IF ts = <<>> THEN q ELSE VarsQ(Tail(ts), VarsT(Head(ts), q))
\* let bindings: name, then its term
VarsB(bs, q) == IF bs = <<>> THEN q ELSE VarsB(Tail(bs), VarsT(Head(bs).a[2], AddV(Head(bs).a[1].t, q)))
VarsP(bs, q) == IF bs = <<>> THEN q ELSE VarsP(Tail(bs), AddV(Head(bs).a[1].t, q))
VarsT(x, q) ==
    IF IsSym(x) THEN IF x.t \in Nullary THEN q ELSE AddV(x.t, q)
    ELSE IF ~IsList(x) THEN q
    ELSE IF Head1(x) = "let" THEN VarsT(x.a[3], VarsB(x.a[2].a, q))
    ELSE IF IsBind(x) THEN VarsT(x.a[3], VarsP(x.a[2].a, q))
    ELSE VarsQ(Tail(x.a), q)
PosV(v, q) == Sym("v" \o ToString((CHOOSE k \in 1..Len(q) : q[k] = v) - 1))
RECURSIVE Norm(_,_)
Norm(x, q) ==
    IF IsSym(x) THEN IF x.t \in Nullary THEN x ELSE PosV(x.t, q)
    ELSE IF ~IsList(x) THEN x
    ELSE IF Head1(x) = "let"
         THEN Ls(<<x.a[1], Ls([k \in 1..Len(x.a[2].a) |-> Ls(<<PosV(x.a[2].a[k].a[1].t, q), Norm(x.a[2].a[k].a[2], q)>>)]), Norm(x.a[3], q)>>)
    ELSE IF IsBind(x)
         THEN Ls(<<x.a[1], Ls([k \in 1..Len(x.a[2].a) |-> Ls(<<PosV(x.a[2].a[k].a[1].t, q), x.a[2].a[k].a[2]>>)]), Norm(x.a[3], q)>>)
    ELSE Ls([k \in 1..Len(x.a) |-> IF k = 1 THEN x.a[1] ELSE Norm(x.a[k], q)])
Entry(x) == Norm(x, VarsT(x, <<>>))

RECURSIVE ListT(_), ListQ(_)
ListQ(ts) == IF ts = <<>> THEN <<>> ELSE ListT(Head(ts)) \o ListQ(Tail(ts))
ListT(x) ==
    IF IsSym(x) THEN IF x.t \in Nullary THEN <<x>> ELSE <<>>
    ELSE IF ~IsList(x) THEN <<>>
    ELSE IF Head1(x) = "let" THEN ListQ([k \in 1..Len(x.a[2].a) |-> x.a[2].a[k].a[2]]) \o ListT(x.a[3])
    ELSE IF IsBind(x) THEN ListT(x.a[3])
    ELSE ListQ(Tail(x.a)) \o <<Entry(x)>>
CmdTerms(c) == CASE Head1(c) = "assert" -> <<c.a[2]>>
                 [] Head1(c) = "define-fun" -> <<c.a[5]>>
                 [] Head1(c) = "get-value" -> c.a[2].a
                 [] OTHER -> <<>>
RECURSIVE Listing(_)
Listing(cmds) == IF cmds = <<>> THEN <<>> ELSE ListQ(CmdTerms(Head(cmds))) \o Listing(Tail(cmds))
=============================================================================
