------------------------------- MODULE Complex -------------------------------
(* cest::complex on Gaussian integers (C24): K variables <<re, im>>.         *)
(* op codes of arithmetic: 0 +  1 -  2 *  3 /                                *)
EXTENDS SeqLib
CONSTANTS K, M, Group        \* Acts keeps components within -M..M
Init0 == [s \in 1..K |-> <<0, 0>>]
Obs(c) == LET RECURSIVE F(_) F(i) == IF i > K THEN <<>> ELSE c[i] \o F(i + 1) IN F(1)
At(c, s) == c[s + 1]
Put(c, s, z) == [c EXCEPT ![s + 1] = z]
R0(c) == {<<c, <<>>>>}
R(c, r) == {<<c, r>>}

Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sb(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Mul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x)   == <<x[1], -x[2]>>
Norm(x)   == x[1] * x[1] + x[2] * x[2]
Neg(x)    == <<-x[1], -x[2]>>
\* x / y, where it is a Gaussian integer
Num(x, y) == Mul(x, Conj(y))
Divides(y, x) == Norm(y) # 0 /\ Num(x, y)[1] % Norm(y) = 0 /\ Num(x, y)[2] % Norm(y) = 0
Quot(x, y) == <<Num(x, y)[1] \div Norm(y), Num(x, y)[2] \div Norm(y)>>
Can(k, x, y) == k = 3 => Divides(y, x)
Op(k, x, y) == CASE k = 0 -> Add(x, y) [] k = 1 -> Sb(x, y) [] k = 2 -> Mul(x, y) [] k = 3 -> Quot(x, y)
Re(x) == <<x, 0>>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN <<1, 0>> ELSE Mul(x, Pow(x, n - 1))
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
\* 2^k / x^n, where it is a Gaussian integer
Recip(x, n, k) == Quot(<<Two(k), 0>>, Pow(x, n))

Do(c, op, a) ==
  CASE op = "set"     -> R0(Put(c, a[1], <<a[2], a[3]>>))
    [] op = "make0"   -> R0(Put(c, a[1], <<0, 0>>))
    [] op = "make1"   -> R0(Put(c, a[1], <<a[2], 0>>))
    [] op = "assign"  -> R0(Put(c, a[1], <<a[2], 0>>))            \* = scalar
    [] op = "copy"    -> R0(Put(c, a[1], At(c, a[2])))            \* = complex
    [] op = "convert" -> R0(Put(c, a[1], At(c, a[2])))            \* through another component type
    [] op = "setre"   -> R0(Put(c, a[1], <<a[2], At(c, a[1])[2]>>))
    [] op = "setim"   -> R0(Put(c, a[1], <<At(c, a[1])[1], a[2]>>))
    \* x op= y (y may be x itself), x op= y of another component type, x op= scalar
    [] op = "upd"     -> R0(Put(c, a[2], Op(a[1], At(c, a[2]), At(c, a[3]))))
    [] op = "updx"    -> R0(Put(c, a[2], Op(a[1], At(c, a[2]), At(c, a[3]))))
    [] op = "upds"    -> R0(Put(c, a[2], Op(a[1], At(c, a[2]), Re(a[3]))))
    \* z = x op y, z = x op scalar, z = scalar op y
    [] op = "bin"     -> R0(Put(c, a[2], Op(a[1], At(c, a[3]), At(c, a[4]))))
    [] op = "bins"    -> R0(Put(c, a[2], Op(a[1], At(c, a[3]), Re(a[4]))))
    [] op = "sbin"    -> R0(Put(c, a[2], Op(a[1], Re(a[3]), At(c, a[4]))))
    \* (x + y) - y*x ... a chain on one line: x op1 y op2 x
    [] op = "chain"   -> R0(Put(c, a[3], Op(a[2], Op(a[1], At(c, a[3]), At(c, a[4])), At(c, a[4]))))
    \* the same between x * 2^e and y * 2^f, its result scaled back: 0 x op y,
    \* 1 x op= y, 2 x op= y of another component type, 3 x op re y, 4 x op= re y,
    \* 5 re x op y
    [] op = "scaled"  -> LET x == At(c, a[3])  y == At(c, a[4]) IN
                         R0(Put(c, a[2], Op(a[1], IF a[5] = 5 THEN Re(x[1]) ELSE x, IF a[5] \in {3, 4} THEN Re(y[1]) ELSE y)))
    \* components of more digits, taken to another component type and back
    [] op = "wide"    -> R(c, <<1, 1>>)
    [] op = "neg"     -> R0(Put(c, a[1], Neg(At(c, a[2]))))
    [] op = "pos"     -> R0(Put(c, a[1], At(c, a[2])))
    [] op = "conj"    -> R0(Put(c, a[1], Conj(At(c, a[2]))))
    [] op = "parts"   -> LET z == At(c, a[1]) IN R(c, <<z[1], z[2], z[1], z[2], Norm(z)>>)
    [] op = "eq"      -> LET e == B(At(c, a[1]) = At(c, a[2])) IN R(c, <<e, 1 - e>>)
    [] op = "eqs"     -> LET e == B(At(c, a[1]) = Re(a[2])) IN R(c, <<e, 1 - e, e, 1 - e>>)
    [] op = "pow"     -> R0(Put(c, a[1], Pow(At(c, a[2]), a[3])))
    [] op = "recip"   -> R(c, Recip(At(c, a[1]), a[2], a[3]))      \* 2^k * z^-n
    [] OTHER -> {}

Slots == 0..(K - 1)
Small(z) == z[1] \in -M..M /\ z[2] \in -M..M
Fit(c, k, x, y) == Can(k, x, y) /\ Small(Op(k, x, y))
Sc == -M..M
Acts(c) ==
  LET A ==
       {<<"set", s, x, y>> : s \in Slots, x \in Sc, y \in Sc}
  \cup {<<"make0", s>> : s \in Slots} \cup {<<op, s, x>> : op \in {"make1", "assign", "setre", "setim"}, s \in Slots, x \in Sc}
  \cup {<<op, s, t>> : op \in {"copy", "convert", "neg", "pos", "conj", "eq"}, s \in Slots, t \in Slots}
  \cup {l \in {<<op, k, s, t>> : op \in {"upd", "updx"}, k \in 0..3, s \in Slots, t \in Slots} : Fit(c, l[2], At(c, l[3]), At(c, l[4]))}
  \cup {l \in {<<"upds", k, s, x>> : k \in 0..3, s \in Slots, x \in Sc} : Fit(c, l[2], At(c, l[3]), Re(l[4]))}
  \cup {l \in {<<"bin", k, u, s, t>> : k \in 0..3, u \in {0}, s \in Slots, t \in Slots} : Fit(c, l[2], At(c, l[4]), At(c, l[5]))}
  \cup {l \in {<<"scaled", k, 0, s, t, w, e, e>> : k \in 0..3, s \in Slots, t \in Slots, w \in 0..5, e \in {3, 0 - 5}} :
          Fit(c, l[2], IF l[6] = 5 THEN Re(At(c, l[4])[1]) ELSE At(c, l[4]), IF l[6] \in {3, 4} THEN Re(At(c, l[5])[1]) ELSE At(c, l[5]))}
  \cup {<<"wide", s>> : s \in Slots}
  \cup {l \in {<<"bins", k, u, s, x>> : k \in 0..3, u \in {0}, s \in Slots, x \in Sc} : Fit(c, l[2], At(c, l[4]), Re(l[5]))}
  \cup {l \in {<<"sbin", k, u, x, s>> : k \in 0..3, u \in {0}, x \in Sc, s \in Slots} : Fit(c, l[2], Re(l[4]), At(c, l[5]))}
  \cup {<<"parts", s>> : s \in Slots} \cup {<<"eqs", s, x>> : s \in Slots, x \in Sc}
  \cup {l \in {<<"pow", 0, s, n>> : s \in Slots, n \in 0..4} : Small(Pow(At(c, l[3]), l[4]))}
  \cup {l \in {<<"recip", s, n, 4>> : s \in Slots, n \in 1..3} :
          Norm(At(c, l[2])) # 0 /\ Divides(Pow(At(c, l[2]), l[3]), <<16, 0>>)}
  IN IF Group = "int" THEN {l \in A : l[1] \notin {"pow", "recip"}} ELSE A

-----------------------------------------------------------------------------
Inv(c) == \A s \in Slots : Small(At(c, s))
\* field laws of the specification itself
Step(c, op, a, r, d) ==
  /\ op \in {"parts", "eq", "eqs", "recip", "wide"} => d = c
  /\ op = "bin" /\ a[1] = 3 => Mul(At(d, a[2]), At(c, a[4])) = At(c, a[3])
  /\ op = "bin" /\ a[1] = 2 => Norm(At(d, a[2])) = Norm(At(c, a[3])) * Norm(At(c, a[4]))
  /\ op = "sbin" /\ a[1] = 1 => Add(At(d, a[2]), At(c, a[4])) = Re(a[3])
=============================================================================
