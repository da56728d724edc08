------------------------------ MODULE Escapes ------------------------------
(* What a string literal denotes, (a) with SMT-LIB 2.6 escapes only and     *)
(* (b) with the legacy (z3) escapes on top of them.                         *)
EXTENDS Integers, Sequences

BS == 92
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
IsHex(c) == HexVal(c) >= 0
RECURSIVE HexNum(_)
HexNum(q) == IF q = <<>> THEN 0 ELSE HexNum(SubSeq(q, 1, Len(q)-1)) * 16 + HexVal(q[Len(q)])
AllHex(q) == \A k \in 1..Len(q) : IsHex(q[k])
At(q, k) == IF k <= Len(q) THEN q[k] ELSE -1

\* length of the SMT-LIB 2.6 escape that starts at position k of q (0 if none) 
BraceLen(q, k) ==      \* \u{d0} .. \u{d4d3d2d1d0}, at most 2FFFF
    LET ns == {n \in 1..5 : /\ At(q, k+3+n) = 125
                            /\ k+2+n <= Len(q)
                            /\ AllHex(SubSeq(q, k+3, k+2+n))
                            /\ (n = 5 => HexVal(q[k+3]) <= 2)}
    IN  IF At(q,k) = BS /\ At(q,k+1) = 117 /\ At(q,k+2) = 123 /\ ns # {}
        THEN 4 + (CHOOSE n \in ns : TRUE) ELSE 0
PlainLen(q, k) ==      \* \ud3d2d1d0
    IF At(q,k) = BS /\ At(q,k+1) = 117 /\ k+5 <= Len(q) /\ AllHex(SubSeq(q, k+2, k+5)) THEN 6 ELSE 0

RECURSIVE DecM(_,_)
DecM(q, k) ==
    IF k > Len(q) THEN <<>>
    ELSE LET b == BraceLen(q,k)  p == PlainLen(q,k) IN
         IF b > 0 THEN <<HexNum(SubSeq(q, k+3, k+b-2))>> \o DecM(q, k+b)
         ELSE IF p > 0 THEN <<HexNum(SubSeq(q, k+2, k+5))>> \o DecM(q, k+6)
         ELSE <<q[k]>> \o DecM(q, k+1)
DecodeModern(q) == DecM(q, 1)

\* Legacy escapes are recognised from left to right; their characters are opaque to the later
\* reading of SMT-LIB escapes (represented as code + Opq).
Opq == 1000000
Ctl(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
            [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> -1
RECURSIVE LegacyTok(_,_)
LegacyTok(q, k) ==
    IF k > Len(q) THEN <<>>
    ELSE IF q[k] # BS \/ k = Len(q) THEN <<q[k]>> \o LegacyTok(q, k+1)
    ELSE IF Ctl(q[k+1]) >= 0 THEN <<Opq + Ctl(q[k+1])>> \o LegacyTok(q, k+2)
    ELSE IF q[k+1] = 120 /\ k+3 <= Len(q) /\ IsHex(q[k+2]) /\ IsHex(q[k+3])
         THEN <<Opq + HexNum(<<q[k+2], q[k+3]>>)>> \o LegacyTok(q, k+4)
    ELSE <<BS, q[k+1]>> \o LegacyTok(q, k+2)
DecodeLegacy(q) ==
    LET d == DecodeModern(LegacyTok(q, 1))
    IN  [j \in 1..Len(d) |-> IF d[j] >= Opq THEN d[j] - Opq ELSE d[j]]

\* literals that must be left alone: nothing in them is a complete legacy escape
NoLegacy(q) == LegacyTok(q, 1) = q
=============================================================================
