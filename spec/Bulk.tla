--------------------------------- MODULE Bulk ---------------------------------
(* Sequences of any size (C01, C03, C05, C06, C10-C12, C14, C15): the same ops *)
(* as in the component specifications, many elements at a time.  A sequence   *)
(* is kept as its maximal runs <<v, n>>: n elements v, v + St, v + 2 St ...   *)
(* Exp gives the plain sequence; Step relates every operation to it.          *)
EXTENDS SeqLib
CONSTANTS K, St, MaxN,
          Ops,        \* the operations the sequence has
          Acct        \* what an element counts for, 9 if nothing is counted

Init0 == [s \in 1..K |-> <<>>]
At(c, s) == c[s + 1]
Set1(c, s, q) == [c EXCEPT ![s + 1] = q]
\* one more run at the end
Add(q, v, n) == IF n = 0 THEN q
                ELSE IF q # <<>> /\ v = Last1(q)[1] + St * Last1(q)[2]
                THEN Front1(q) \o <<<<Last1(q)[1], Last1(q)[2] + n>>>>
                ELSE q \o <<<<v, n>>>>
\* only where the two meet can runs join
Cat(q, r) == IF r = <<>> THEN q ELSE Add(q, r[1][1], r[1][2]) \o Tail(r)
RECURSIVE Count(_), Take(_, _), Drop(_, _), Nth(_, _), FlatR(_), Exp(_), Find(_, _, _, _)
Count(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Count(Tail(q))
Take(q, n) == IF n = 0 THEN <<>> ELSE IF n < q[1][2] THEN <<<<q[1][1], n>>>> ELSE <<q[1]>> \o Take(Tail(q), n - q[1][2])
Drop(q, n) == IF n = 0 THEN q ELSE IF n < q[1][2] THEN <<<<q[1][1] + St * n, q[1][2] - n>>>> \o Tail(q) ELSE Drop(Tail(q), n - q[1][2])
Nth(q, i) == IF i < q[1][2] THEN q[1][1] + St * i ELSE Nth(Tail(q), i - q[1][2])
FlatR(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatR(Tail(q))
Exp(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..q[1][2] |-> q[1][1] + St * (i - 1)] \o Exp(Tail(q))
\* the first place from i on where v is, -1 if there is none (p: where q starts)
Find(q, v, i, p) == IF q = <<>> THEN -1
                    ELSE LET k == IF St = 0 THEN IF v = q[1][1] THEN Max2(i - p, 0) ELSE -1 ELSE v - q[1][1]
                         IN IF k >= 0 /\ k >= i - p /\ k < q[1][2] THEN p + k ELSE Find(Tail(q), v, i, p + q[1][2])
RECURSIVE ObsAll(_)
ObsAll(qs) == IF qs = <<>> THEN <<>> ELSE <<Count(qs[1]), Len(qs[1])>> \o FlatR(qs[1]) \o ObsAll(Tail(qs))
RECURSIVE Total1(_)
Total1(qs) == IF qs = <<>> THEN 0 ELSE Count(qs[1]) + Total1(Tail(qs))
\* the elements alive anywhere, and what went wrong with them or the storage
Held(c) == IF Acct = 9 THEN <<>> ELSE <<Acct * Total1(c), 0>>
Obs(c) == ObsAll(c) \o Held(c)

\* order: by runs (St = 0: codes repeated; the shorter is the smaller)
RECURSIVE Cmp(_, _)
Cmp(q, r) == IF q = <<>> /\ r = <<>> THEN 0 ELSE IF q = <<>> THEN -1 ELSE IF r = <<>> THEN 1
             ELSE IF q[1][1] # r[1][1] THEN IF q[1][1] < r[1][1] THEN -1 ELSE 1
             ELSE LET m == Min2(q[1][2], r[1][2]) IN Cmp(Drop(q, m), Drop(r, m))
\* the characters before the first null
RECURSIVE UpTo0(_)
UpTo0(q) == IF q = <<>> \/ q[1][1] = 0 THEN <<>> ELSE <<q[1]>> \o UpTo0(Tail(q))
\* the first place from i on where n times v are, for St = 0 (p: where q starts)
RECURSIVE FindR(_, _, _, _, _)
FindR(q, v, n, i, p) ==
  IF q = <<>> THEN -1
  ELSE LET k == Max2(i - p, 0) IN
       IF v = q[1][1] /\ k + n <= q[1][2] THEN p + k ELSE FindR(Tail(q), v, n, i, p + q[1][2])

Put(c, s, q) == {<<Set1(c, s, q), <<>>>>}
Put1(c, s, r) == {<<Set1(c, s, <<>>), r>>}
Do(c, op, a) ==
  LET s == a[1]  q == At(c, a[1]) IN
  CASE op = "il"     -> Put(c, s, Add(<<>>, a[2], a[3]))
    [] op = "back"   -> Put(c, s, Add(q, a[2], a[3]))
    [] op = "front"  -> Put(c, s, Cat(Add(<<>>, a[2], a[3]), q))
    [] op = "popb"   -> Put(c, s, Take(q, Count(q) - a[2]))
    [] op = "popf"   -> Put(c, s, Drop(q, a[2]))
    [] op \in {"clear", "make"} -> Put(c, s, <<>>)
    [] op = "reserve" -> Put(c, s, q)
    [] op = "set"    -> Put(c, s, Cat(Add(Take(q, a[2]), a[3], 1), Drop(q, a[2] + 1)))
    [] op = "at"     -> {<<c, <<Nth(q, a[2])>>>>}
    [] op = "ins"    -> Put(c, s, Cat(Cat(Take(q, a[2]), Add(<<>>, a[3], a[4])), Drop(q, a[2])))
    [] op = "erase"  -> Put(c, s, Cat(Take(q, a[2]), Drop(q, a[3])))
    [] op \in {"copy", "assign"} -> Put(c, s, At(c, a[2]))
    \* the other object joined to this one, which may be it
    [] op = "join"   -> Put(c, s, Cat(q, At(c, a[2])))
    [] op = "swap"   -> {<<Set1(Set1(c, s, At(c, a[2])), a[2], q), <<>>>>}
    [] op = "find"   -> {<<c, <<Find(q, a[2], a[3], 0)>>>>}
    [] op = "findr"  -> {<<c, <<IF a[3] = 0 THEN IF a[4] <= Count(q) THEN a[4] ELSE -1 ELSE FindR(q, a[2], a[3], a[4], 0)>>>>}
    [] op = "cmp"    -> {<<c, <<Cmp(q, At(c, a[2]))>>>>}
    \* ... with the text given as a null-terminated one
    [] op = "cmpz"   -> {<<c, <<Cmp(q, UpTo0(At(c, a[2])))>>>>}
    \* calls that fail: what was done before stays, the rest is as it was
    [] op = "xback"  -> Put(c, s, Add(q, a[2], a[5]))
    [] op = "xfront" -> Put(c, s, Cat(Add(<<>>, a[2] + St * (a[3] - a[5]), a[5]), q))
    [] op = "xins"   -> Put(c, s, Cat(Cat(Take(q, a[2]), Add(<<>>, a[3], a[6])), Drop(q, a[2])))
    \* ... and what a whole object is left with is then cleared away
    [] op = "xcopy"  -> {<<c, <<1>>>>}
    [] op = "xassign" -> Put1(c, s, <<1>>)
    \* the objects end, and what they held with them
    [] op = "gone"   -> {<<Init0, <<0, 0, 0>>>>}
    [] op = "eq"     -> {<<c, <<B(q = At(c, a[2]))>>>>}
    \* from end to end, one way or another
    [] op = "walk"   -> {<<c, ObsAll(<<q>>)>>}
    [] OTHER         -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Ns == 0..MaxN
Room(c, s) == MaxN - Count(At(c, s))
\* values two apart, so that runs meet as well as not
Vs == {0, 1, 2}
Pairs == {p \in Slots \X Slots : p[1] # p[2]}
All(c) ==
       UNION {{<<op, s, v, n>> : op \in {"back", "front"}, v \in Vs, n \in 0..Room(c, s)} : s \in Slots}
  \cup UNION {{<<op, s, n>> : op \in {"popb", "popf"}, n \in 0..Count(At(c, s))} : s \in Slots}
  \cup UNION {{<<"set", s, i, v>> : i \in 0..(Count(At(c, s)) - 1), v \in Vs} : s \in Slots}
  \cup UNION {{<<"at", s, i>> : i \in 0..(Count(At(c, s)) - 1)} : s \in Slots}
  \cup UNION {{<<"ins", s, i, v, n>> : i \in 0..Count(At(c, s)), v \in Vs, n \in 0..Room(c, s)} : s \in Slots}
  \cup UNION {UNION {{<<"erase", s, i, j>> : i \in 0..j} : j \in 0..Count(At(c, s))} : s \in Slots}
  \cup {<<"find", s, v, i>> : s \in Slots, v \in 0..3, i \in Ns}
  \cup {<<op, s>> : op \in {"clear", "make", "gone"}, s \in Slots}
  \cup {<<"il", s, v, n>> : s \in Slots, v \in Vs, n \in Ns}
  \cup {<<"findr", s, v, n, i>> : s \in Slots, v \in Vs, n \in Ns, i \in Ns}
  \cup {<<op, s, t>> : op \in {"cmp", "cmpz"}, s \in Slots, t \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "assign", "swap", "eq"}, p \in Pairs} \cup {<<"assign", s, s>> : s \in Slots}
  \cup {<<"join", p[1], p[2]>> : p \in {x \in Slots \X Slots : Count(At(c, x[2])) <= Room(c, x[1])}}
  \cup {<<"walk", s, w>> : s \in Slots, w \in 0..3} \cup {<<"reserve", s, n>> : s \in Slots, n \in Ns}
Acts(c) == {l \in All(c) : l[1] \in Ops}
Inv(c) == \A s \in 1..K : \A i \in 1..Len(c[s]) : c[s][i][2] > 0 /\ (i > 1 => c[s][i][1] # c[s][i - 1][1] + St * c[s][i - 1][2])
Run(v, n) == [i \in 1..n |-> v + St * (i - 1)]
\* the same on plain sequences
Step(c, op, a, r, d) ==
  LET x == Exp(At(c, a[1]))  y == Exp(At(d, a[1])) IN
  /\ op = "back"  => y = x \o Run(a[2], a[3])
  /\ op = "front" => y = Run(a[2], a[3]) \o x
  /\ op = "popb"  => y = SubSeq(x, 1, Len(x) - a[2])
  /\ op = "popf"  => y = SubSeq(x, a[2] + 1, Len(x))
  /\ op = "set"   => y = [x EXCEPT ![a[2] + 1] = a[3]]
  /\ op = "at"    => r = <<x[a[2] + 1]>>
  /\ op = "ins"   => y = SubSeq(x, 1, a[2]) \o Run(a[3], a[4]) \o SubSeq(x, a[2] + 1, Len(x))
  /\ op = "erase" => y = Cut(x, a[2], a[3])
  /\ op = "join"  => y = x \o Exp(At(c, a[2]))
  /\ op = "eq"    => r = <<B(x = Exp(At(c, a[2])))>>
  /\ op = "find"  => LET hits == {i \in 0..(Len(x) - 1) : i >= a[3] /\ x[i + 1] = a[2]}
                     IN r = <<IF hits = {} THEN -1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j>>
  /\ op = "findr" => LET hits == {i \in 0..Len(x) : i >= a[4] /\ i + a[3] <= Len(x) /\ \A j \in 1..a[3] : x[i + j] = a[2]}
                     IN r = <<IF hits = {} THEN -1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j>>
  /\ op \in {"cmp", "cmpz"} =>
                     LET w0 == Exp(At(c, a[2]))
                         ends == {i \in 1..Len(w0) : w0[i] = 0}
                         z == IF op = "cmp" \/ ends = {} THEN w0 ELSE SubSeq(w0, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
                         less(u, w) == \/ (Len(u) < Len(w) /\ SubSeq(w, 1, Len(u)) = u)
                                       \/ \E i \in 1..Min2(Len(u), Len(w)) : u[i] < w[i] /\ SubSeq(u, 1, i - 1) = SubSeq(w, 1, i - 1)
                     IN r = <<IF less(x, z) THEN -1 ELSE IF less(z, x) THEN 1 ELSE 0>>
  /\ \A s \in Slots : s # a[1] /\ op \notin {"swap", "gone"} => At(d, s) = At(c, s)
=============================================================================
