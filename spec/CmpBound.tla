------------------------------- MODULE CmpBound -------------------------------
(* The cost of one find or insert on a set or map of n elements (C09): the   *)
(* number of comparator calls of a find is bounded by 4 log2(n + 1) + 6, and *)
(* that of an insert by twice as much (it may look for the key first), what- *)
(* ever the order in which the elements were inserted.  The state is n; the  *)
(* calls carry the number of comparator calls the real code made.            *)
EXTENDS Integers, Sequences
CONSTANT MaxN
Init0 == 0
Obs(n) == <<n>>
\* cnt - 6 <= 4 log2(n + 1), in integers (weaker by less than one call)
Within(n, cnt) == cnt <= 6 \/ 2 ^ ((cnt - 6) \div 2) <= (n + 1) * (n + 1)
WithinInsert(n, cnt) == Within(n, (cnt + 1) \div 2)

\* a: the rank asked for, the number of comparator calls it took
Do(n, op, a) ==
  \* a[2] insertions, and finds between them; then <<calls, size>>: where a call
  \* that cost so much was made on the fewest elements (negated: of an insert)
  IF op = "burst" THEN IF \A i \in 2..(Len(a) \div 2) : IF a[2 * i] < 0 THEN WithinInsert(a[2 * i + 1], -a[2 * i]) ELSE Within(a[2 * i + 1], a[2 * i]) THEN {<<n + a[2], <<1>>>>} ELSE {}
  ELSE IF ~(IF op \in {"insert", "insert_dup"} THEN WithinInsert(n, a[2]) ELSE Within(n, a[2])) THEN {}
  ELSE CASE op = "insert"     -> {<<n + 1, <<1>>>>}
         [] op = "insert_dup" -> {<<n, <<0>>>>}
         [] op = "find"       -> {<<n, <<1>>>>}
         [] op = "find_const" -> {<<n, <<1>>>>}
         [] op = "find_gap"   -> {<<n, <<0>>>>}
         \* the same by a key of another type
         [] op = "find_other" -> {<<n, <<1>>>>}
         [] op = "gap_other"  -> {<<n, <<0>>>>}
         \* a copy, by construction or assignment, is used from now on
         [] op \in {"copy", "assign"} -> {<<n, <<>>>>}
         [] op = "clear"      -> {<<0, <<>>>>}
         [] OTHER             -> {}
Acts(n) == {l \in {<<op, 0, k>> : op \in {"insert", "find", "find_gap", "find_other", "gap_other", "copy", "assign"}, k \in 0..60} :
              IF l[1] = "insert" THEN n < MaxN /\ WithinInsert(n, l[3]) ELSE Within(n, l[3])}
Inv(n) == n <= MaxN
\* the bound is what it says: 4 log2(n+1) + 6 calls are within it, 2 more are not
Step(n, op, a, r, d) == \A e \in 0..4 : n + 1 = 2 ^ e => (Within(n, 4 * e + 6) /\ ~Within(n, 4 * e + 8) /\ WithinInsert(n, 8 * e + 12))
=============================================================================
