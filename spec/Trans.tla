-------------------------------- MODULE Trans ---------------------------------
(* The transcendental functions of cest's cmath and complex (C28), computed   *)
(* here by methods of this module's own in integer arithmetic, and the set of *)
(* results within the tolerance of the exact one.                             *)
(*                                                                            *)
(* Fixed point: an integer x stands for x / 2^20.  Floats: <<m, e>> stands    *)
(* for (m / 2^20) * 2^e, with m = 0 or 2^19 <= |m| < 2^20.                    *)
(*                                                                            *)
(* Arguments are given as <<m, e>>, the number m * 2^e, |m| < 2^20.           *)
(* Results are told in cells, so that those within the tolerance are few:     *)
(*   magnitudes: <<sign, e, floor(n f)>> for f * 2^e, 1/2 <= f < 1;          *)
(*     tolerance 0.2 % of the exact value for sqrt, cosh and complex abs,     *)
(*     0.02 % for exp and sinh                                                *)
(*   the others: floor(n v); tolerance 0.002 for log, 0.0002 for sin, cos,    *)
(*     atan, atan2 and arg                                                    *)
(*   complex numbers: <<e, floor(N re / 2^e), floor(N im / 2^e)>>, e the      *)
(*     exponent of the larger part, at least 0; tolerance 0.002 (powers 0.01) *)
(*     of the larger part, or of 1                                            *)
EXTENDS SeqLib
CONSTANTS Grid
Init0 == <<>>
Obs(c) == <<>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x < y THEN y ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
One == 1048576
Half == 524288
\* shifts towards zero
Shr(x, k) == IF k > 30 THEN 0 ELSE IF x < 0 THEN -((-x) \div Pow2(k)) ELSE x \div Pow2(k)
Shift(x, k) == IF k < 0 THEN Shr(x, -k) ELSE x * Pow2(k)

-----------------------------------------------------------------------------
\* fixed point
\* for |x| * |y| < 2 * One * One
MulP(x, y) == ((x \div 1024) * y) \div 1024 + ((x % 1024) * y) \div One
Mul(x, y) == IF (x < 0) # (y < 0) THEN -MulP(Abs(x), Abs(y)) ELSE MulP(Abs(x), Abs(y))
\* for |x| <= One, y # 0, |y| < 2 * One, the quotient below 1024
DivP(x, y) == LET q == (x * 1024) \div y  r == (x * 1024) % y IN q * 1024 + (r * 1024) \div y
Div(x, y) == IF (x < 0) # (y < 0) THEN -DivP(Abs(x), Abs(y)) ELSE DivP(Abs(x), Abs(y))

Pi     == 3294199                            \* 3.14159265
HalfPi == 1647099
QuarPi == 823550
Ln2x2  == 1453635                            \* 2 * 0.69314718
Ln2    == 726817

\* for |x| <= pi / 4, by Taylor's series
Sin0(x) == LET s == Mul(x, x) IN Mul(x, One - Mul(s, One - Mul(s, One - s \div 42) \div 20) \div 6)
Cos0(x) == LET s == Mul(x, x) IN One - Mul(s, One - Mul(s, One - Mul(s, One - s \div 56) \div 30) \div 12) \div 2
\* for |x| < 1000: x = k * pi / 2 + r.  2 * pi = 6588397.05 units
Octant(x) == LET t == x \div 6588397
                 r == x - t * 6588397 - t \div 19
                 k == (r + QuarPi) \div HalfPi IN <<k % 4, r - k * HalfPi - k \div 2>>
Sin(x) == LET o == Octant(x) IN CASE o[1] = 0 -> Sin0(o[2]) [] o[1] = 1 -> Cos0(o[2]) [] o[1] = 2 -> -Sin0(o[2]) [] OTHER -> -Cos0(o[2])
Cos(x) == LET o == Octant(x) IN CASE o[1] = 0 -> Cos0(o[2]) [] o[1] = 1 -> -Sin0(o[2]) [] o[1] = 2 -> -Cos0(o[2]) [] OTHER -> Sin0(o[2])
\* for |x| <= 0.42
Atan0(x) == LET s == Mul(x, x) IN
  Mul(x, One - Mul(s, (One \div 3) - Mul(s, (One \div 5) - Mul(s, (One \div 7) - Mul(s, (One \div 9) - Mul(s, (One \div 11) - s \div 13))))))
\* for 0 <= x <= 1
Atan1(x) == IF x <= 434334 THEN Atan0(x) ELSE QuarPi + Atan0(Div(x - One, x + One))
\* the natural logarithm, for 0.7 <= x <= 1.42: 2 artanh((x - 1) / (x + 1))
Ln0(x) == LET y == Div(x - One, (x + One) \div 2) \div 2  s == Mul(y, y) IN
  2 * Mul(y, One + Mul(s, (One \div 3) + Mul(s, (One \div 5) + Mul(s, (One \div 7) + s \div 9))))
\* for |x| <= 0.36
Exp0(x) == One + Mul(x, One + Mul(x, One + Mul(x, One + Mul(x, One + Mul(x, One + Mul(x, One + x \div 7) \div 6) \div 5) \div 4) \div 3) \div 2)

-----------------------------------------------------------------------------
\* floats
Zero == <<0, 0>>
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN Zero ELSE IF Abs(m) >= One THEN Norm(Shr(m, 1), e + 1)
              ELSE IF Abs(m) >= Half THEN <<m, e>> ELSE Norm(2 * m, e - 1)
Fl(m, e)  == Norm(m, e + 20)                  \* the number m * 2^e
FromFx(x) == Norm(x, 0)
\* for |f| < 1024
ToFx(f) == IF f[1] = 0 THEN 0 ELSE Shift(f[1], f[2])
FNeg(f) == <<-f[1], f[2]>>
FAbs(f) == <<Abs(f[1]), f[2]>>
FTwice(f, k) == IF f[1] = 0 THEN f ELSE <<f[1], f[2] + k>>
FMul(f, g) == Norm(Mul(f[1], g[1]), f[2] + g[2])
FDiv(f, g) == Norm(Div(f[1], g[1]), f[2] - g[2])
FAdd(f, g) == IF f[1] = 0 THEN g ELSE IF g[1] = 0 THEN f
              ELSE IF f[2] >= g[2] THEN Norm(f[1] + Shr(g[1], f[2] - g[2]), f[2])
              ELSE Norm(g[1] + Shr(f[1], g[2] - f[2]), g[2])
FSub(f, g) == FAdd(f, FNeg(g))
FLe(f, g)  == LET d == FSub(f, g) IN d[1] <= 0
F1 == <<Half, 1>>
\* the integer square root of n < 2^30
RECURSIVE ISqrt(_, _, _)
ISqrt(n, b, r) == IF b = 0 THEN r ELSE ISqrt(n, b \div 2, IF (r + b) * (r + b) <= n THEN r + b ELSE r)
FSqrt(f) == IF f[1] = 0 THEN Zero
            ELSE IF f[2] % 2 = 0 THEN Norm(ISqrt(f[1] * 1024, 16384, 0) * 32, f[2] \div 2)
            ELSE Norm(ISqrt(f[1] * 512, 16384, 0) * 32, (f[2] + 1) \div 2)
\* of a fixed point number below 1000
FExp(x) == LET n == (2 * x + Ln2) \div Ln2x2 IN Norm(Exp0((2 * x - n * Ln2x2) \div 2), n)
FCosh(x) == FTwice(FAdd(FExp(x), FExp(-x)), -1)
FSinh(f) == LET x == ToFx(f) IN
  IF f[2] <= -1 THEN FMul(f, FromFx(LET s == Mul(x, x) IN One + Mul(s, One + s \div 20) \div 6))
  ELSE FTwice(FSub(FExp(x), FExp(-x)), -1)
\* of a positive float: fixed point, |f| between 2^-1100 and 2^1100
Ln(f) == IF f[1] >= 741455 THEN Ln0(f[1]) + (f[2] * Ln2x2) \div 2 ELSE Ln0(2 * f[1]) + ((f[2] - 1) * Ln2x2) \div 2
\* of y / x, both not negative and not both 0
AtanQ(y, x) == IF FLe(y, x) THEN Atan1(ToFx(FDiv(y, x))) ELSE HalfPi - Atan1(ToFx(FDiv(x, y)))
Atan2(y, x) ==
  IF x[1] = 0 /\ y[1] = 0 THEN 0
  ELSE LET a == AtanQ(FAbs(y), FAbs(x))  b == IF x[1] < 0 THEN Pi - a ELSE a IN IF y[1] < 0 THEN -b ELSE b
Atan(x) == Atan2(x, F1)

-----------------------------------------------------------------------------
\* complex
\* pairs of floats
CMul(z, w) == <<FSub(FMul(z[1], w[1]), FMul(z[2], w[2])), FAdd(FMul(z[1], w[2]), FMul(z[2], w[1]))>>
CDiv(z, w) == LET n == FAdd(FMul(w[1], w[1]), FMul(w[2], w[2]))
                  p == CMul(z, <<w[1], FNeg(w[2])>>) IN <<FDiv(p[1], n), FDiv(p[2], n)>>
SinF(f) == FromFx(Sin(ToFx(f)))
CosF(f) == FromFx(Cos(ToFx(f)))
ExpF(f) == FExp(ToFx(f))
Ch(f) == FCosh(ToFx(f))
Polar(r, t) == <<FMul(r, CosF(t)), FMul(r, SinF(t))>>
CAbs(z)  == LET x == FAbs(z[1])  y == FAbs(z[2])
                g == IF FLe(x, y) THEN y ELSE x  h == IF FLe(x, y) THEN x ELSE y IN
            IF g[1] = 0 THEN Zero ELSE LET q == FDiv(h, g) IN FMul(g, FSqrt(FAdd(F1, FMul(q, q))))
CExp(z)  == Polar(ExpF(z[1]), z[2])
CLog(z)  == <<FromFx(Ln(CAbs(z))), FromFx(Atan2(z[2], z[1]))>>
CSin(z)  == <<FMul(SinF(z[1]), Ch(z[2])), FMul(CosF(z[1]), FSinh(z[2]))>>
CCos(z)  == <<FMul(CosF(z[1]), Ch(z[2])), FNeg(FMul(SinF(z[1]), FSinh(z[2])))>>
CSinh(z) == <<FMul(FSinh(z[1]), CosF(z[2])), FMul(Ch(z[1]), SinF(z[2]))>>
CCosh(z) == <<FMul(Ch(z[1]), CosF(z[2])), FMul(FSinh(z[1]), SinF(z[2]))>>
\* the root in the right half plane: sqrt((|z| + |x|) / 2) is its larger part
CSqrt(z) == IF z[1][1] = 0 /\ z[2][1] = 0 THEN <<Zero, Zero>>
            ELSE LET t == FSqrt(FTwice(FAdd(CAbs(z), FAbs(z[1])), -1))
                     u == FDiv(FTwice(FAbs(z[2]), -1), t)
                     re == IF z[1][1] < 0 THEN u ELSE t
                     im == IF z[1][1] < 0 THEN t ELSE u IN <<re, IF z[2][1] < 0 THEN FNeg(im) ELSE im>>
CTan(z)  == CDiv(CSin(z), CCos(z))
CTanh(z) == CDiv(CSinh(z), CCosh(z))
Ln10 == FromFx(2414435)
CLog10(z) == LET w == CLog(z) IN <<FDiv(w[1], Ln10), FDiv(w[2], Ln10)>>
CPow(z, w) == IF z[1][1] = 0 /\ z[2][1] = 0 THEN <<Zero, Zero>> ELSE CExp(CMul(w, CLog(z)))

-----------------------------------------------------------------------------
\* results
\* the cells of the numbers (k / n) * 2^e, for k a little below n / 2 or above n too
Cell(e, k, n) == IF 2 * k < n THEN {<<e - 1, 2 * k>>, <<e - 1, 2 * k + 1>>} ELSE IF k >= n THEN {<<e + 1, k \div 2>>} ELSE {<<e, k>>}
\* within the d-th part of f, floor(n f / 2^e)
Rel(f, n, d) == IF f[1] = 0 THEN {<<0, 0, 0>>}
                ELSE LET m == Abs(f[1])  u == One \div n IN
                     {<<Sign(f[1])>> \o q : q \in UNION {Cell(f[2], k, n) : k \in (m - m \div d) \div u .. (m + m \div d) \div u}}
\* within t / 2^20 of x, floor(n x)
Near(x, n, t) == LET u == One \div n IN {<<k>> : k \in (x - t) \div u .. (x + t) \div u}
\* floor(n * f / 2^e), within d / 2^20 of f / 2^e
Part(f, e, n, d) == LET x == IF f[1] = 0 THEN 0 ELSE Shift(f[1], f[2] - e) IN
                    (n * (x - d)) \div One .. (n * (x + d)) \div One
\* the tolerance is t thousandths of the larger part, or of 1
CNear(z, n, t) ==
  LET m == IF FLe(FAbs(z[1]), FAbs(z[2])) THEN FAbs(z[2]) ELSE FAbs(z[1])
      top == m[2]
      \* next to a power of two the result's exponent may be the other one
      Ex == (IF top <= 0 \/ (top = 1 /\ m[1] - t * 1049 < Half) THEN {0} ELSE {}) \cup {k \in {top - 1, top, top + 1} : k > 0 /\ (k < top => m[1] - t * 1049 < Half) /\ (k > top => m[1] + t * 1049 >= One)}
      Tol(e) == IF top <= 0 THEN Shift(t * 1049, -e) ELSE Shift(t * (m[1] \div 1000 + 1), top - e)
  IN UNION {{<<e, a, b>> : a \in Part(z[1], e, n, Tol(e) + 4), b \in Part(z[2], e, n, Tol(e) + 4)} : e \in IF m[1] = 0 THEN {0} ELSE Ex}
Fn(op, z) ==
  CASE op = "cexp" -> CExp(z) [] op = "clog" -> CLog(z) [] op = "csin" -> CSin(z) [] op = "ccos" -> CCos(z)
    [] op = "csinh" -> CSinh(z) [] op = "ccosh" -> CCosh(z) [] op = "csqrt" -> CSqrt(z) [] op = "ctan" -> CTan(z)
    [] op = "ctanh" -> CTanh(z) [] op = "clog10" -> CLog10(z) [] op = "polar" -> Polar(z[1], z[2])
COps == {"cexp", "clog", "csin", "ccos", "csinh", "ccosh", "csqrt", "ctan", "ctanh", "clog10", "polar"}
RR(c, rs) == {<<c, r>> : r \in rs}
Do(c, op, a) ==
  LET x == Fl(a[1], a[2])  y == Fl(a[3], a[4])  z == <<x, y>> IN
  CASE op = "sqrt" -> RR(c, Rel(FSqrt(x), 1024, 500))
    [] op = "exp"  -> RR(c, Rel(ExpF(x), 8192, 5000))
    [] op = "sinh" -> RR(c, Rel(FSinh(x), 8192, 5000))
    [] op = "cosh" -> RR(c, Rel(Ch(x), 1024, 500))
    [] op = "sin"  -> RR(c, Near(Sin(ToFx(x)), 4096, 210))
    [] op = "cos"  -> RR(c, Near(Cos(ToFx(x)), 4096, 210))
    [] op = "atan" -> RR(c, Near(Atan(x), 4096, 210))
    [] op = "log"  -> RR(c, Near(Ln(x), 512, 2097))
    [] op = "atan2" -> RR(c, Near(Atan2(x, y), 4096, 210))          \* the first argument is the ordinate
    [] op = "carg" -> RR(c, Near(Atan2(y, x), 4096, 210))
    [] op = "cabs" -> RR(c, Rel(CAbs(z), 1024, 500))
    [] op \in COps -> RR(c, CNear(Fn(op, z), 512, 2))
    [] op = "cpow"  -> RR(c, CNear(CPow(z, <<Fl(a[5], a[6]), Fl(a[7], a[8])>>), 128, 10))
    [] op = "cpowr" -> RR(c, CNear(CPow(z, <<Fl(a[5], a[6]), Zero>>), 128, 10))       \* complex to a real power
    [] op = "rpowc" -> RR(c, CNear(CPow(<<x, Zero>>, <<y, Fl(a[5], a[6])>>), 128, 10))   \* real to a complex power
    \* 0, infinity, NaN: see the harness.  0 zero 1 infinity 2 NaN 3 minus infinity
    [] op = "odd" -> RR(c, CASE a[1] \in {0, 6, 7, 8, 9, 10, 22, 25} -> {<<0>>}
                             [] a[1] \in {2, 11, 16, 18, 21, 24} -> {<<1>>}
                             [] a[1] \in {1, 3, 5, 12, 13, 14, 15, 19, 20, 23, 29, 30} -> {<<2>>}
                             [] a[1] \in {4, 17} -> {<<3>>}
                             [] a[1] = 26 -> Near(HalfPi, 4096, 210) [] a[1] = 27 -> Near(-HalfPi, 4096, 210)
                             [] a[1] = 28 -> Near(Pi, 4096, 210) [] OTHER -> {})
    [] OTHER -> {}

Nums(es) == {<<m, e>> : m \in -Grid..Grid, e \in es}
Pos(es)  == {<<m, e>> : m \in 1..Grid, e \in es}
Parts == {<<m, -1>> : m \in -5..5}
Acts(c) ==
       {<<op>> \o x : op \in {"sqrt", "log"}, x \in Pos({-1074, -1070, -60, -5, -1, 0, 3, 40})}
  \cup {<<op>> \o x : op \in {"sin", "cos"}, x \in Nums({-6, -2, 1})}
  \cup {<<op>> \o x : op \in {"sinh", "cosh"}, x \in Nums({-60, -5, -2})}
  \cup {<<"exp">> \o x : x \in Nums({-60, -5, -1})}
  \cup {<<"atan">> \o x : x \in Nums({-60, -5, -3, 0, 30})}
  \cup {<<"atan2", p, e, q, f>> : p \in -9..9, e \in {0}, q \in -9..9, f \in {0, -4}}
  \cup {<<op>> \o x \o y : op \in COps \ {"clog", "clog10", "polar", "ctan", "ctanh"}, x \in Parts, y \in Parts}
  \cup {l \in {<<op>> \o x \o y : op \in {"clog", "clog10", "cabs", "carg"}, x \in Parts, y \in Parts} : l[2] # 0 \/ l[4] # 0}
  \cup {<<"polar", r, -2>> \o t : r \in 0..9, t \in Parts}
  \cup {<<op, p, -2, q, -2>> : op \in {"ctan", "ctanh"}, p \in -5..5, q \in -5..5}
  \cup {l \in {<<"cpow", p, 0, q, 0, n, -1, k, -1>> : p \in -2..2, q \in -2..2, n \in -4..4, k \in {-3, 0, 2}} : l[2] # 0 \/ l[4] # 0}
  \cup {l \in {<<"cpowr", p, 0, q, 0, n, -1>> : p \in -2..2, q \in -2..2, n \in -4..4} : l[2] # 0 \/ l[4] # 0}
  \cup {<<"rpowc", p, 0, n, -1, k, -1>> : p \in {-3, -1, 1, 2, 4}, n \in -4..4, k \in {-3, 0, 2}}
  \cup {<<"odd", k>> : k \in 0..30}
\* the reference itself: sin^2 + cos^2 = 1, ln(exp x) = x, sqrt(x)^2 = x, cosh^2 - sinh^2 = 1,
\* tan(atan x) = x, exp(log z) = z, sqrt(z)^2 = z, each to about 2^-12
Close(f, g) == LET d == FSub(f, g) IN d[1] = 0 \/ d[2] <= Max(f[2], 0) - 11
Inv(c) ==
  /\ \A m \in 1..60 : \A e \in {-9, -5, -1} : LET f == Fl(m, e)  x == ToFx(f) IN
       /\ Close(FAdd(FMul(SinF(f), SinF(f)), FMul(CosF(f), CosF(f))), F1)
       /\ Abs(Ln(FExp(x)) - x) < 64
       /\ Close(FMul(FSqrt(f), FSqrt(f)), f)
       /\ (e < -1 => LET h == Ch(f)  s == FSinh(f) IN Close(FSub(FMul(h, h), FMul(s, s)), F1) \/ h[2] > 3)
       /\ LET t == FromFx(Atan(f)) IN Close(FDiv(SinF(t), CosF(t)), f) \/ f[2] > 4
  /\ \A x \in Parts, y \in Parts : LET z == <<Fl(x[1], -1), Fl(y[1], -1)>>  q == CSqrt(z)  w == CMul(q, q) IN
       /\ Close(w[1], z[1]) /\ Close(w[2], z[2]) /\ q[1][1] >= 0
       /\ (x[1] # 0 \/ y[1] # 0) => LET v == CExp(CLog(z)) IN Close(v[1], z[1]) /\ Close(v[2], z[2])
Step(c, op, a, r, d) == d = c
=============================================================================
