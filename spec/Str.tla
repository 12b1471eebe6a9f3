---------------------------------- MODULE Str ----------------------------------
(* cest::basic_string: K strings, each the sequence of its characters, which  *)
(* are the unsigned character codes (C11, C12, C13).  Character arrays the    *)
(* client passes are sequences of codes as well; used as C strings they end   *)
(* at the first 0.  In groups ci... the strings have character traits of their *)
(* own: characters are compared and found without regard to case.             *)
EXTENDS SeqLib
CONSTANTS K, Chars, MaxLen, Group

Init0 == [s \in 1..K |-> <<>>]
At(c, s)     == c[s + 1]
Put(c, s, q) == [c EXCEPT ![s + 1] = q]
R0(c)        == {<<c, <<>>>>}
R(c, r)      == {<<c, r>>}
\* per string: size, characters, and 1 if capacity() >= size(), the character
\* at size() is 0 and data(), c_str(), begin() and &s[0] agree
RECURSIVE Objs(_)
Objs(qs) == IF qs = <<>> THEN <<>> ELSE <<Len(qs[1])>> \o qs[1] \o <<1>> \o Objs(Tail(qs))
Obs(c) == Objs(c)

CStr(q) == IF \E i \in 1..Len(q) : q[i] = 0
           THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1)
           ELSE q
From(q, i) == SubSeq(q, i + 1, Len(q))
Fold(v) == IF Group \in {"ci", "cisearch", "cicompare"} /\ v \in 97..122 THEN v - 32 ELSE v
FoldAll(q) == [i \in 1..Len(q) |-> Fold(q[i])]
\* the smallest position >= pos where p occurs in q, or -1
Occurs(q, p, k) == k + Len(p) <= Len(q) /\ \A j \in 1..Len(p) : Fold(q[k + j]) = Fold(p[j])
Find(q, p, pos) == LET S == {k \in pos..Len(q) : Occurs(q, p, k)} IN
                   IF S = {} THEN -1 ELSE CHOOSE k \in S : \A j \in S : k <= j
\* unsigned lexicographic order: -1, 0, 1
RECURSIVE Cmp(_, _)
Cmp(x, y) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1)
             ELSE IF y = <<>> THEN 1
             ELSE IF Fold(x[1]) < Fold(y[1]) THEN -1 ELSE IF Fold(x[1]) > Fold(y[1]) THEN 1 ELSE Cmp(Tail(x), Tail(y))
Rels(x, y) == LET k == Cmp(x, y) IN <<k, B(k = 0), B(k # 0), B(k < 0)>>

\* calls that take a character array carry it behind their other arguments
Do(c, op, a) ==
  LET s == a[1]  q == At(c, a[1])  n == Len(At(c, a[1])) IN
  CASE op = "make"      -> R0(Put(c, s, <<>>))
    [] op = "make_lit"  -> R0(Put(c, s, CStr(Tail(a))))
    [] op = "make_cnt"  -> R0(Put(c, s, Tail(a)))
    [] op = "make_it"   -> R0(Put(c, s, Tail(a)))
    [] op = "make_sub"  -> R0(Put(c, s, SubSeq(At(c, a[2]), a[3] + 1, a[3] + a[4])))
    [] op = "copy"      -> R0(Put(c, s, At(c, a[2])))
    [] op = "assign"    -> R0(Put(c, s, At(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0(Put(Put(c, s, At(c, a[2])), a[2], <<>>))
    [] op = "assign_lit" -> R0(Put(c, s, CStr(Tail(a))))
    [] op = "assign_own" -> R0(Put(c, s, CStr(From(q, a[2]))))
    [] op = "append"     -> R0(Put(c, s, q \o At(c, a[2])))
    [] op = "plus_eq"    -> R0(Put(c, s, q \o At(c, a[2])))
    [] op = "append_cnt" -> R0(Put(c, s, q \o Tail(a)))
    [] op = "append_own" -> R0(Put(c, s, q \o SubSeq(q, a[2] + 1, a[2] + a[3])))
    [] op = "plus_ch"    -> R0(Put(c, s, Append(q, a[2])))
    [] op = "push"       -> R0(Put(c, s, Append(q, a[2])))
    [] op = "push_own"   -> R0(Put(c, s, Append(q, q[a[2] + 1])))
    [] op = "pop"        -> R0(Put(c, s, Front1(q)))
    [] op = "clear"      -> R0(Put(c, s, <<>>))
    [] op = "reserve"    -> R(c, <<1>>)
    [] op = "set"        -> R0(Put(c, s, [q EXCEPT ![a[2] + 1] = a[3]]))
    [] op = "set_it"     -> R0(Put(c, s, [q EXCEPT ![a[2] + 1] = a[3]]))
    [] op = "set_end"    -> R0(Put(c, s, [q EXCEPT ![IF a[2] = 0 THEN 1 ELSE n] = a[3]]))
    [] op = "ends"       -> R(c, <<q[1], q[n], q[1], q[n]>>)
    \* views: 0 begin 1 const begin 2 cbegin 3 const [] 4 c_str 5 data
    \*        6 reverse_iterator 7 range-for 8 const reverse_iterator
    [] op = "view"       -> R(c, Views(q, a[2], 9, {6, 8}))
    [] op = "find_ch"    -> R(c, <<Find(q, <<a[2]>>, a[3])>>)
    [] op = "find_str"   -> R(c, <<Find(q, At(c, a[2]), a[3])>>)
    [] op = "find_cnt"   -> R(c, <<Find(q, Tail(Tail(a)), a[2])>>)
    [] op = "find_lit"   -> R(c, <<Find(q, CStr(Tail(Tail(a))), a[2])>>)
    \* a part of the string itself, found in it and compared with it
    [] op = "find_own"   -> R(c, <<Find(q, SubSeq(q, a[3] + 1, a[3] + a[4]), a[2])>>)
    [] op = "cmp_own"    -> R(c, Rels(q, CStr(From(q, a[2]))))
    \* the position left to its default: of a character, a string, an array
    [] op = "find0"      -> R(c, <<Find(q, <<a[3]>>, 0), Find(q, At(c, a[2]), 0), Find(q, CStr(<<a[3]>>), 0)>>)
    \* compare, ==, !=, <
    [] op = "cmp"        -> R(c, Rels(q, At(c, a[2])))
    [] op = "cmp_lit"    -> R(c, Rels(q, CStr(Tail(a))))
    \* array on the left: ==, !=, <
    [] op = "lit_cmp"    -> R(c, Tail(Rels(CStr(Tail(a)), q)))
    [] OTHER             -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Strs(n) == SeqsUpTo(Chars, n)
Room(c, s, n) == Len(At(c, s)) + n <= MaxLen
Idx(c, s) == 0..(Len(At(c, s)) - 1)
Edit(c) ==
       {<<op, s>> \o q : op \in {"make_lit", "make_cnt", "make_it", "assign_lit"}, s \in Slots, q \in Strs(Min2(2, MaxLen))}
  \cup {<<op, s>> : op \in {"make", "clear"}, s \in Slots}
  \cup {<<"pop", s>> : s \in {x \in Slots : At(c, x) # <<>>}}
  \cup {<<op, s, v>> : op \in {"push", "plus_ch"}, s \in {x \in Slots : Room(c, x, 1)}, v \in Chars}
  \cup UNION {{<<"push_own", s, i>> : i \in Idx(c, s)} : s \in {x \in Slots : Room(c, x, 1)}}
  \cup {l \in {<<"append_cnt", s>> \o q : s \in Slots, q \in Strs(2)} : Room(c, l[2], Len(l) - 2)}
  \cup UNION {UNION {{<<"append_own", s, i, k>> : k \in 0..Min2(Len(At(c, s)) - i, MaxLen - Len(At(c, s)))} : i \in 0..Len(At(c, s))} : s \in Slots}
  \cup UNION {{<<"assign_own", s, i>> : i \in 0..Len(At(c, s))} : s \in Slots}
  \cup {<<"reserve", s, n>> : s \in Slots, n \in {0, MaxLen, 2 * MaxLen}}
  \cup UNION {{<<op, s, i, v>> : op \in {"set", "set_it"}, i \in Idx(c, s), v \in Chars} : s \in Slots}
  \cup {<<"set_end", s, k, v>> : s \in {x \in Slots : At(c, x) # <<>>}, k \in 0..1, v \in Chars}
  \cup {<<"ends", s>> : s \in {x \in Slots : At(c, x) # <<>>}}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..9}
Two(c) ==
       {<<"copy", p[1], p[2]>> : p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<op, p[1], p[2]>> : op \in {"append", "plus_eq"}, p \in {x \in Slots \X Slots : Room(c, x[1], Len(At(c, x[2])))}}
  \cup UNION {UNION {{<<"make_sub", s, t, i, k>> : k \in 0..(Len(At(c, t)) - i)} : i \in 0..Len(At(c, t))} : s \in Slots, t \in Slots}
Search(c) ==
       {<<"make_cnt", s>> \o q : s \in Slots, q \in Strs(MaxLen)}
  \cup {<<"find_ch", s, v, p>> : s \in Slots, v \in Chars, p \in 0..(MaxLen + 1)}
  \cup UNION {UNION {{<<"find_own", s, p, i, k>> : p \in 0..MaxLen, k \in 0..(Len(At(c, s)) - i)} : i \in 0..Len(At(c, s))} : s \in Slots}
  \cup {<<op, s, p>> \o q : op \in {"find_cnt", "find_lit"}, s \in Slots, p \in 0..(MaxLen + 1), q \in Strs(Min2(3, MaxLen))}
Compare(c) ==
       {<<"make_cnt", s>> \o q : s \in Slots, q \in Strs(MaxLen)}
  \cup {<<op, s>> \o q : op \in {"cmp_lit", "lit_cmp"}, s \in Slots, q \in Strs(MaxLen)}
  \cup UNION {{<<"cmp_own", s, i>> : i \in 0..Len(At(c, s))} : s \in Slots}
  \cup {<<"cmp", s, t>> : s \in Slots, t \in Slots}
  \cup {<<"find_str", s, t, p>> : s \in Slots, t \in Slots, p \in 0..(MaxLen + 1)}
  \cup {<<"find0", s, t, v>> : s \in Slots, t \in Slots, v \in Chars}
Acts(c) ==
  CASE Group \in {"content"} -> Edit(c)
    [] Group = "objects" -> Two(c) \cup {l \in Edit(c) : l[1] \in {"make_cnt", "push", "pop", "clear", "set", "assign_lit"}}
    [] Group \in {"search", "cisearch"}  -> Search(c)
    [] Group \in {"compare", "cicompare"} -> Compare(c)
    [] OTHER             -> Edit(c) \cup Two(c)

Inv(c) == \A s \in Slots : Len(At(c, s)) <= MaxLen
Readers == {"reserve", "ends", "view", "find_ch", "find_str", "find_cnt", "find_lit", "find0", "find_own", "cmp", "cmp_own", "cmp_lit", "lit_cmp"}
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ \A s \in Slots : (s # a[1] /\ ~(op \in {"take", "mtake"} /\ s = a[2])) => At(d, s) = At(c, s)
  \* the found position is an occurrence, and no earlier one exists
  /\ op = "find_cnt" => /\ r[1] >= 0 => (r[1] >= a[2] /\ Occurs(At(c, a[1]), Tail(Tail(a)), r[1]))
                        /\ \A k \in a[2]..MaxLen : Occurs(At(c, a[1]), Tail(Tail(a)), k) => (r[1] >= 0 /\ r[1] <= k)
  /\ op = "cmp" => /\ r[2] = B(FoldAll(At(c, a[1])) = FoldAll(At(c, a[2])))
                   /\ Cmp(At(c, a[2]), At(c, a[1])) = -r[1]
=============================================================================
