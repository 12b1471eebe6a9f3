------------------------------- MODULE IosBits -------------------------------
(* The bitmask types of the streams: format flags, open modes, stream states  *)
(* (C19).  A mask is the set of the named bits it has, by their numbers; as   *)
(* an argument or result, the sum of 2^number.  T: which type (0 flags, 1     *)
(* modes, 2 states), W: how many named bits it has.                           *)
EXTENDS SeqLib
CONSTANTS T, W
All == 0..(W - 1)
RECURSIVE Pow2(_), Sum(_, _)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Sum(s, i) == IF i = W THEN 0 ELSE (IF i \in s THEN Pow2(i) ELSE 0) + Sum(s, i + 1)
Num(s) == Sum(s, 0)
Bits(n) == {i \in All : (n \div Pow2(i)) % 2 = 1}
Init0 == {}
Obs(c) == <<Num(c)>>
\* flags by number: boolalpha dec fixed hex internal left oct right scientific
\* showbase showpoint showpos skipws unitbuf uppercase
Fields == <<{5, 7, 4}, {1, 6, 3}, {8, 2}>>
Do(c, op, a) ==
  LET m == Bits(a[1]) IN
  CASE op = "set" -> {<<m, <<>>>>}
    [] op \in {"join", "joineq"}   -> {<<c \cup m, <<1>>>>}
    [] op \in {"meet", "meeteq"} -> {<<c \cap m, <<1>>>>}
    [] op \in {"diff", "diffeq"} -> {<<(c \ m) \cup (m \ c), <<1>>>>}
    [] op = "inv"  -> {<<All \ c, <<1>>>>}
    [] op = "less" -> {<<c \ m, <<1>>>>}                                 \* x & ~m
    [] op = "has"  -> {<<c, <<B(c \cap m # {}), B(c = m)>>>>}
    [] op = "fields" -> {<<c, [i \in 1..3 |-> Num(Fields[i])]>>}
    \* of a new stream: flags, no tied stream
    [] op = "fresh" -> {<<c, <<Num({12, 1}), 1>>>>}
    [] OTHER -> {}
Ms == {0} \cup {Pow2(i) : i \in All} \cup (IF W < 5 THEN 0..(Pow2(W) - 1) ELSE {Num(All), Num({0, 2, 4})})
\* of the flags, only the masks of few and of all are left again
Few(c) == W < 10 \/ Cardinality(c) < 3 \/ c = All
Acts(c) == IF ~Few(c) THEN {} ELSE
           {<<op, m>> : op \in {"set", "join", "joineq", "meet", "meeteq", "diff", "diffeq", "less", "has"}, m \in Ms}
           \cup {<<"inv", 0>>} \cup (IF T = 0 /\ W = 15 THEN {<<"fields", 0>>, <<"fresh", 0>>} ELSE {})
Inv(c) == Bits(Num(c)) = c
Step(c, op, a, r, d) ==
  /\ op = "inv" => c \cup d = All /\ c \cap d = {}
  /\ op \in {"join", "joineq", "meet", "meeteq"} => (c \subseteq d) = (op \in {"join", "joineq"}) \/ c = d
=============================================================================
