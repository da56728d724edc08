------------------------------ MODULE Updater ------------------------------
(* The string-function updater as a transducer over commands.               *)
EXTENDS Sx, Escapes

LegacyName == [x \in {"str.to.re","str.in.re","str.to.int","int.to.str"} |->
    CASE x = "str.to.re" -> "str.to_re" [] x = "str.in.re" -> "str.in_re"
      [] x = "str.to.int" -> "str.to_int" [] OTHER -> "str.from_int"]

\* a term (or any S-expression inside a term-carrying command) with literals masked or kept
RECURSIVE Mod(_)
Mod(x) ==
    IF IsSym(x) THEN IF x.t = "re.nostr" THEN Sym("re.none") ELSE x
    ELSE IF ~IsList(x) THEN x
    ELSE LET h == Head1(x)
             as == [k \in 1..Len(x.a) |-> Mod(x.a[k])]
         IN  IF h \in DOMAIN LegacyName THEN Ls(<<Sym(LegacyName[h])>> \o Tail(as))
             ELSE IF h = "re.loop" /\ Len(x.a) = 4
                  THEN Ls(<<Ls(<<Sym("_"), Sym("re.loop"), x.a[3], x.a[4]>>), as[2]>>)
             ELSE Ls(as)

TermCmds == {"assert", "define-fun", "get-value", "check-sat-assuming"}
ModCmd(c) == IF Head1(c) \in TermCmds THEN Ls(<<c.a[1]>> \o [k \in 1..Len(c.a)-1 |-> Mod(c.a[k+1])]) ELSE c

RECURSIVE Mask(_)
Mask(x) == IF IsStr(x) THEN Sym("$lit") ELSE IF IsList(x) THEN Ls([k \in 1..Len(x.a) |-> Mask(x.a[k])]) ELSE x
MaskCmd(c) == IF Head1(c) \in TermCmds THEN Mask(c) ELSE c
RECURSIVE Lits(_)
Lits(x) == IF IsStr(x) THEN <<x.s>> ELSE IF IsList(x) THEN FlattenS([k \in 1..Len(x.a) |-> Lits(x.a[k])]) ELSE <<>>
LitsOfCmds(q) == FlattenS([k \in 1..Len(q) |-> IF Head1(q[k]) \in TermCmds THEN Lits(q[k]) ELSE <<>>])

ArithHeads == {"+", "-", "*", "<", "<=", ">", ">=", "div", "mod", "abs", "/"}
RECURSIVE HasArith(_)
HasArith(x) == IsList(x) /\ (Head1(x) \in ArithHeads \/ \E k \in 1..Len(x.a) : HasArith(x.a[k]))

IsSetLogic(c) == Head1(c) = "set-logic"
IsSetOption(c) == Head1(c) = "set-option"
HasSetLogic(q) == \E k \in 1..Len(q) : IsSetLogic(q[k])
LeadingOptions(q) == CHOOSE n \in 0..Len(q) : /\ \A k \in 1..n : IsSetOption(q[k])
                                              /\ (n = Len(q) \/ ~IsSetOption(q[n+1]))
Logic(q) == IF \E k \in 1..Len(q) : Head1(q[k]) \in TermCmds /\ HasArith(q[k]) THEN "QF_SLIA" ELSE "QF_S"

\* ---------------------------------------------------------------- properties of (input, output)
\* U01
LitsOK(in, out) ==
    LET a == LitsOfCmds(in)  b == LitsOfCmds(out)
    IN  /\ Len(a) = Len(b)
        /\ \A k \in 1..Len(a) : /\ DecodeLegacy(a[k]) = DecodeModern(b[k])
                                /\ (NoLegacy(a[k]) => a[k] = b[k])
\* U02: without the set-logic commands, the output is the modernised input, literals aside
NoLogic(q) == SelectSeq(q, LAMBDA c : ~IsSetLogic(c))
ShapeOK(in, out) ==
    LET a == NoLogic(in)  b == NoLogic(out)
    IN  Len(a) = Len(b) /\ \A k \in 1..Len(a) : MaskCmd(ModCmd(a[k])) = MaskCmd(b[k])
\* U03: heads of commands, with set-logic where it belongs
LogicOK(in, out) ==
    LET H(q) == [k \in 1..Len(q) |-> IF IsSetLogic(q[k]) THEN q[k] ELSE Sym(Head1(q[k]))]
        n == LeadingOptions(in)
    IN  IF in = <<>> THEN out = <<>>
        ELSE IF HasSetLogic(in) THEN H(out) = H(in)
        ELSE H(out) = SubSeq(H(in), 1, n) \o <<App("set-logic", <<Sym(Logic(in))>>)>> \o SubSeq(H(in), n+1, Len(in))
=============================================================================
