-------------------------------- MODULE CMath --------------------------------
(* The exact part of cest's cmath (C26).  Arguments are given as integers:   *)
(*   <<p, q>>   the number p / 2^q                                           *)
(*   <<n, d>>   for the *_next calls: the floating-point number next to the  *)
(*              integer n, below (d < 0) or above it, or n itself (d = 0)    *)
EXTENDS SeqLib
CONSTANTS P, Qs, Bases, Exps
Init0 == <<>>
Obs(c) == <<>>
RECURSIVE Pow2(_)
Pow2(q) == IF q = 0 THEN 1 ELSE 2 * Pow2(q - 1)
Floor(p, q) == p \div Pow2(q)                       \* \div rounds down
Ceil(p, q)  == -((-p) \div Pow2(q))
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) == IF e = 0 THEN 1 % m ELSE (PowMod(b, e - 1, m) * (b % m)) % m
Primes == <<30011, 29989>>
R(c, r) == {<<c, r>>}
Do(c, op, a) ==
  CASE op = "floor" -> R(c, <<Floor(a[1], a[2])>>)
    [] op = "ceil"  -> R(c, <<Ceil(a[1], a[2])>>)
    [] op = "floor_next" -> R(c, <<IF a[2] < 0 THEN a[1] - 1 ELSE a[1]>>)
    [] op = "ceil_next"  -> R(c, <<IF a[2] > 0 THEN a[1] + 1 ELSE a[1]>>)
    \* magnitudes, as multiples of 2^-q
    [] op = "abs"   -> R(c, <<Abs(a[1])>>)
    [] op = "fabs"  -> R(c, <<Abs(a[1])>>)
    \* of the neighbour of an integer: <<magnitude is the argument or its negation, not negative>>
    [] op = "abs_next" -> R(c, <<1, 1>>)
    \* b^e for an integer b: the integer's remainders (it may exceed TLC's integers), exactly an integer
    [] op = "pow"   -> R(c, <<1, PowMod(a[1], a[2], Primes[1]), PowMod(a[1], a[2], Primes[2])>>)
    \* (sign * 2^k)^e = (its sign) * 2^(k e), for e of either sign
    [] op = "pow_two" -> R(c, <<IF a[1] < 0 /\ a[3] % 2 = 1 THEN -1 ELSE 1, a[2] * a[3]>>)
    \* (p / 2^q)^e = p^e / 2^(q e)
    [] op = "pow_frac" -> R(c, <<1, PowMod(a[1], a[3], Primes[1]), PowMod(a[1], a[3], Primes[2])>>)
    [] op = "pow_zero" -> R(c, <<IF a[1] = 0 THEN 1 ELSE 0>>)
    [] OTHER -> {}
RECURSIVE PowOf(_, _)
PowOf(b, e) == IF e = 0 THEN 1 ELSE b * PowOf(b, e - 1)
Acts(c) ==
       {<<op, p, q>> : op \in {"floor", "ceil", "abs", "fabs"}, p \in -P..P, q \in Qs}
  \cup {<<op, n, d>> : op \in {"floor_next", "ceil_next", "abs_next"}, n \in -P..P, d \in -1..1}
  \cup {<<"pow", b, e>> : b \in -Bases..Bases, e \in 0..Exps}
  \cup {<<"pow_two", s, k, e>> : s \in {-1, 1}, k \in -3..3, e \in -Exps..Exps}
  \cup {<<"pow_frac", p, q, e>> : p \in {-3, -1, 1, 3, 5}, q \in 1..2, e \in 0..Exps}
  \cup {<<"pow_zero", e>> : e \in 0..Exps}
Inv(c) == \A p \in -P..P, q \in Qs :
            /\ Floor(p, q) * Pow2(q) <= p /\ p < (Floor(p, q) + 1) * Pow2(q)
            /\ Ceil(p, q) * Pow2(q) >= p /\ p > (Ceil(p, q) - 1) * Pow2(q)
            /\ Ceil(p, q) = -Floor(-p, q)
Step(c, op, a, r, d) == d = c /\ (op = "pow" /\ Abs(a[1]) <= 5 /\ a[2] <= 10 => r[2] = PowOf(a[1], a[2]) % Primes[1])
=============================================================================
