-------------------------------- MODULE Rng --------------------------------
(* A splittable deterministic chooser.  The generator specifications are    *)
(* nondeterministic grammars; a seed <<a, b>> resolves their choices, so    *)
(* that one behaviour is one case and a case is reproducible from its seed. *)
EXTENDS Integers, Sequences

Mix(s, k) ==
    LET a1 == (s[1] * 32719 + s[2] + (k % 20000) * 101 + 13) % 65521
        b1 == (s[2] * 32749 + a1 + 7) % 65519
        a2 == (a1 * 32713 + b1) % 65521
    IN  <<a2, b1>>
Seed0(k, n) == Mix(Mix(Mix(<<k % 65521, (k * 7 + 3) % 65519>>, n % 20000), n \div 20000), 17)
Pick(s, n)   == ((s[1] + 3 * s[2]) \div 3) % n                \* 0 .. n-1
Chance(s, p) == (s[1] + s[2]) % 100 < p
Elem(s, q)   == q[Pick(s, Len(q)) + 1]
Range2(s, lo, hi) == lo + Pick(s, hi - lo + 1)                \* lo .. hi
=============================================================================
