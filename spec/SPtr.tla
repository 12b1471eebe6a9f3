---------------------------------- MODULE SPtr ----------------------------------
(* cest::shared_ptr (C17).  K pointers to objects and M pointers of another   *)
(* type that only ever alias.  A pointer is <<owner, target>>: owner is the   *)
(* number of what it keeps alive (0: nothing), target what it points to       *)
(* (0: nothing, EXT: something nobody owns).  Every object has a shared_ptr   *)
(* of its own (next), so ownership forms chains and cycles.  kind: how the    *)
(* object was handed over:                                                    *)
(*   0 plain, 1 a derived object given as such, 2 and 3 with a deleter        *)
(*   numbered 1 and 2, 4 derived with deleter 1, 5 with a function as deleter,*)
(*   6 with a deleter and no object: a null pointer that has owners;          *)
(*   10+n an array of n, 20+n an array of n with deleter 2                    *)
(* The number of owners is not part of the state: it is counted.              *)
EXTENDS SeqLib
CONSTANTS K, M, MaxObjs, MaxId, Group
EXT == 99
Nil == <<0, 0>>
Init0 == [p |-> [s \in 1..(K + M) |-> Nil], next |-> <<>>, kind |-> <<>>]
\* next, kind: functions over the living
Alive(c) == DOMAIN c.next
At(c, s) == c.p[s + 1]
Put(c, s, x) == [c EXCEPT !.p[s + 1] = x]
Fresh(c) == CHOOSE i \in 1..MaxId : i \notin Alive(c) /\ \A j \in 1..(i - 1) : j \in Alive(c)
Uses(c, i) == Cardinality({s \in 1..(K + M) : c.p[s][1] = i}) + Cardinality({j \in Alive(c) : c.next[j][1] = i})
Count(c, x) == IF x[1] = 0 THEN 0 ELSE Uses(c, x[1])
Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
\* what is said when an object of a kind ends
Cry(k, i) == CASE k \in {0, 7} -> <<i>>                                      \* 7, 8: given a default_delete
               [] k \in {1, 8} -> <<100 + i, i>>
               [] k \in {2, 3} -> <<200 + k - 1, i>>
               [] k = 4 -> <<201, 100 + i, i>>
               [] k = 5 -> <<203, i>>
               [] k = 6 -> <<206, i>>
               [] k > 30 -> [j \in 1..(k - 30) |-> 1000 + 10 * i + (k - 30) + 1 - j] \o <<i>>
               [] k > 20 -> <<202>> \o [j \in 1..(k - 20) |-> 1000 + 10 * i + (k - 20) + 1 - j] \o <<i>>
               [] k > 10 -> [j \in 1..(k - 10) |-> 1000 + 10 * i + (k - 10) + 1 - j] \o <<i>>
\* what no one owns any more ends, and lets go of what it owned.  A call gives
\* up one owner at most, so there is never more than one to end at a time.
RECURSIVE Settle(_, _)
Settle(c, r) ==
  LET dead == {i \in Alive(c) : Uses(c, i) = 0} IN
  IF dead = {} THEN {<<c, r>>}
  ELSE LET i == CHOOSE x \in dead : TRUE IN
       Settle([c EXCEPT !.next = Without(@, i), !.kind = Without(@, i)], r \o Cry(c.kind[i], i))
Real(c, s) == s < K /\ At(c, s)[2] \notin {0, EXT}
Own(c, s) == At(c, s)[1]
ObsP(c, x) == <<Count(c, x), x[2], B(x[2] # 0)>>
RECURSIVE ObsN(_, _)
ObsN(c, i) == IF i > MaxId THEN <<>> ELSE (IF i \in Alive(c) THEN <<i>> \o ObsP(c, c.next[i]) ELSE <<>>) \o ObsN(c, i + 1)
RECURSIVE ObsS(_, _)
ObsS(c, s) == IF s > K + M THEN <<>> ELSE ObsP(c, c.p[s]) \o ObsS(c, s + 1)
Obs(c) == ObsS(c, 1) \o ObsN(c, 1) \o <<Cardinality(Alive(c)), 1>>
RECURSIVE KeyN(_, _), KeyS(_, _)
KeyN(c, i) == IF i > MaxId THEN <<>> ELSE (IF i \in Alive(c) THEN <<i, c.kind[i]>> \o c.next[i] ELSE <<>>) \o KeyN(c, i + 1)
KeyS(c, s) == IF s > K + M THEN <<>> ELSE c.p[s] \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1) \o KeyN(c, 1)

DelOf(k) == CASE k = 2 -> 1 [] k = 3 -> 2 [] k = 4 -> 1 [] k \in 21..30 -> 2 [] OTHER -> 0
\* the pointer left behind by a move keeps what it has, or is empty
Moved(c, s, t, base) == Settle(Put(base, s, At(c, t)), <<>>) \cup Settle(Put(Put(base, t, Nil), s, At(c, t)), <<>>)
Do(c, op, a) ==
  LET s == a[1]  x == At(c, a[1]) IN
  CASE op = "make"     -> LET i == Fresh(c) IN
                          Settle([p |-> [c.p EXCEPT ![s + 1] = <<i, IF a[2] = 6 THEN 0 ELSE i>>],
                                  next |-> [j \in Alive(c) \cup {i} |-> IF j = i THEN Nil ELSE c.next[j]],
                                  kind |-> [j \in Alive(c) \cup {i} |-> IF j = i THEN a[2] ELSE c.kind[j]]], <<>>)
    [] op = "make_null" -> Settle(Put(c, s, Nil), <<>>)
    [] op \in {"copy_new", "assign"} -> Settle(Put(c, s, At(c, a[2])), <<>>)
    [] op \in {"move_new", "massign"} -> Moved(c, s, a[2], c)
    \* p[s] = shared_ptr(p[t], x): what x points to, kept alive by p[t]'s object
    [] op = "alias"    -> Settle(Put(c, s, <<Own(c, a[2]), CASE a[3] = 0 -> At(c, a[2])[2] [] a[3] = 1 -> EXT [] a[3] = 2 -> 0>>), <<>>)
    [] op = "swap"     -> {<<Put(Put(c, s, At(c, a[2])), a[2], x), <<>>>>}
    [] op = "link"     -> Settle([c EXCEPT !.next[x[2]] = At(c, a[2])], <<>>)
    [] op = "unlink"   -> Settle([c EXCEPT !.next[x[2]] = Nil], <<>>)
    \* p[t] = p[s]->next
    [] op = "getnext"  -> Settle(Put(c, a[2], c.next[x[2]]), <<>>)
    \* p[s]->next = p[s]->next->next, as far as there is one
    [] op = "skip"     -> LET n == c.next[x[2]] IN
                          Settle([c EXCEPT !.next[x[2]] = IF n[2] \in {0, EXT} THEN Nil ELSE c.next[n[2]]], <<>>)
    \* n copies are made one after the other, then end
    [] op = "fan"      -> {<<c, [j \in 1..a[2] |-> IF x[1] = 0 THEN 0 ELSE Count(c, x) + j] \o <<Count(c, x)>>>>}
    \* ... or all at once
    [] op = "many"     -> {<<c, <<IF x[1] = 0 THEN 0 ELSE Count(c, x) + a[2], 1, Count(c, x)>>>>}
    [] op = "getdel"   -> {<<c, <<IF x[1] = 0 THEN 0 ELSE DelOf(c.kind[x[1]]), 0>>>>}
    [] op = "read"     -> {<<c, <<x[2], x[2], x[2]>>>>}
    [] op = "index"    -> {<<c, [j \in 1..(c.kind[x[2]] % 10) |-> 1000 + 10 * x[2] + j]>>}
    [] OTHER           -> {}

-----------------------------------------------------------------------------
Slots == 0..(K + M - 1)
ObjSlots == 0..(K - 1)
Pairs == {x \in Slots \X Slots : (x[1] < K) = (x[2] < K)}
Kinds == CASE Group \in {"kinds"} -> 0..8 [] Group = "array" -> {11, 12, 22, 32} [] OTHER -> {0}
Links == Group \in {"links", "cycles"}
RealS(c) == {s \in ObjSlots : Real(c, s)}
Acts(c) ==
       (IF Cardinality(Alive(c)) < MaxObjs THEN {<<"make", s, k>> : s \in ObjSlots, k \in Kinds} ELSE {})
  \cup {<<"make_null", s, f>> : s \in Slots, f \in 0..1}
  \cup {<<"assign", x[1], x[2]>> : x \in Pairs}
  \cup {<<op, x[1], x[2]>> : op \in {"copy_new", "swap"}, x \in {y \in Pairs : y[1] # y[2]}}
  \cup (IF Group \in {"alias", "array"} THEN
          {<<"alias", s, t, f>> : s \in Slots, t \in Slots, f \in 1..2}
          \cup {<<"alias", s, t, 0>> : s \in Slots, t \in {u \in ObjSlots : Real(c, u) /\ Own(c, u) = At(c, u)[2]}}
        ELSE {<<op, x[1], x[2]>> : op \in {"move_new", "massign"}, x \in {y \in Pairs : y[1] # y[2]}})
  \cup (IF Links THEN
          {<<"link", s, t>> : s \in RealS(c), t \in ObjSlots} \cup {<<op, s>> : op \in {"unlink", "skip"}, s \in RealS(c)}
          \cup {<<"getnext", s, t>> : s \in RealS(c), t \in ObjSlots}
        ELSE {})
  \cup {<<"fan", s, 3>> : s \in Slots} \cup {<<"many", s, 300>> : s \in Slots}
  \cup {<<"getdel", s>> : s \in ObjSlots}
  \cup (IF Group = "array" THEN {<<"index", s>> : s \in RealS(c)} ELSE {<<"read", s>> : s \in {t \in Slots : At(c, t)[2] # 0}})
\* the living are exactly the owned, and what is pointed to lives
Inv(c) == /\ \A i \in Alive(c) : Uses(c, i) > 0
          /\ \A s \in 1..(K + M) : c.p[s][1] \in Alive(c) \cup {0} /\ (c.p[s][2] \in Alive(c) => c.p[s][1] = c.p[s][2])
          /\ \A s \in 1..(K + M) : c.p[s][2] \in Alive(c) \cup {0, EXT}
          /\ DOMAIN c.kind = DOMAIN c.next
\* only ceasing to own ends anything, and each end is told once
Step(c, op, a, r, d) ==
  LET gone == Alive(c) \ Alive(d) IN
  /\ op \in {"swap", "fan", "many", "getdel", "read", "index"} => gone = {}
  /\ op \notin {"fan", "many", "getdel", "read", "index"} => {r[i] : i \in 1..Len(r)} \cap (1..MaxId) = gone
  /\ \A i \in gone : Uses(c, i) >= 1
=============================================================================
