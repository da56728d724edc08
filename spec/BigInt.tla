------------------------------- MODULE BigInt -------------------------------
(* Integers beyond TLC's 32 bits: 20 limbs, base 10^4, little endian, with  *)
(* the sign in the 21st (the carry out): a canonical two's-complement-like  *)
(* representation, so that equality is equality of the tuples.              *)
EXTENDS Integers, Sequences
BW == 20
BB == 10000
RECURSIVE BNorm(_,_,_,_)
BNorm(q, k, carry, acc) ==
    IF k > BW THEN Append(acc, carry)
    ELSE LET v == q[k] + carry IN BNorm(q, k+1, v \div BB, Append(acc, v % BB))
\* the 21st limb is the carry: value = sum limb_k BB^(k-1) + carry * BB^20
BCanon(q, top) == LET r == BNorm(q, 1, 0, <<>>) IN [r EXCEPT ![BW+1] = @ + top]
BOf(n) == BCanon([k \in 1..BW |-> IF k = 1 THEN n ELSE 0], 0)
BAdd(a, b) == BCanon([k \in 1..BW |-> a[k] + b[k]], a[BW+1] + b[BW+1])
BNegS(a) == BCanon([k \in 1..BW |-> -a[k]], -a[BW+1])
BNonNeg(a) == a[BW+1] >= 0
RECURSIVE SumR(_,_,_,_)
SumR(a, b, k, j) == IF j > k THEN 0 ELSE a[j] * b[k+1-j] + SumR(a, b, k, j+1)
BMulP(a, b) == BCanon([k \in 1..BW |-> SumR(a, b, k, 1)], 0)     \* both nonnegative, no overflow
BMul(a, b) ==
    IF BNonNeg(a) /\ BNonNeg(b) THEN BMulP(a, b)
    ELSE IF BNonNeg(a) THEN BNegS(BMulP(a, BNegS(b)))
    ELSE IF BNonNeg(b) THEN BNegS(BMulP(BNegS(a), b))
    ELSE BMulP(BNegS(a), BNegS(b))
BLe(a, b) == BNonNeg(BAdd(b, BNegS(a)))
=============================================================================
