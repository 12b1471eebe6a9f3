-------------------------------- MODULE Deque --------------------------------
(* cest::deque: K deque objects, each the mathematical sequence of its        *)
(* elements (C03, C04, C13).  Storage blocks do not exist at this level; see  *)
(* DequeImpl for the block table and its refinement of this specification.    *)
EXTENDS SeqLib
CONSTANTS K, Vals, MaxLen, Group

Init0 == [s \in 1..K |-> <<>>]
Obs(c) == Flat(c)
At(c, s)     == c[s + 1]
Put(c, s, q) == [c EXCEPT ![s + 1] = q]
R0(c)        == {<<c, <<>>>>}
R(c, r)      == {<<c, r>>}

PushBack(c, s, v)  == R0(Put(c, s, Append(At(c, s), v)))
PushFront(c, s, v) == R0(Put(c, s, <<v>> \o At(c, s)))
PopBack(c, s)      == R0(Put(c, s, Front1(At(c, s))))
PopFront(c, s)     == R0(Put(c, s, Tail(At(c, s))))
Write(c, s, i, v)  == R0(Put(c, s, [At(c, s) EXCEPT ![i + 1] = v]))
\* views: 0 ++begin 1 const ++begin 2 cbegin++ 3 --end 4 const end-- 5 const []
\*        6 reverse_iterator 7 range-for 8 through pointers to the elements
\*        taken when they were pushed 9 begin++ 10 cend--
\*        11 - 14 ++, --, ++ and -- with what they give back 15 const range-for
Backwards == {3, 4, 6, 10, 12, 14}
View_(c, s, k) == R(c, Views(At(c, s), k, 16, Backwards))
\* the difference of the iterators at positions i and j, of mutable and const
\* iterators, and whether they compare equal
Diff(c, i, j)  == R(c, <<i - j, i - j, B(i = j), B(i = j)>>)

Do(c, op, a) ==
  CASE op = "make"          -> R0(Put(c, a[1], <<>>))
    [] op = "make_il"       -> R0(Put(c, a[1], Tail(a)))
    [] op = "push_back"     -> PushBack(c, a[1], a[2])
    [] op = "push_back_mv"  -> PushBack(c, a[1], a[2])
    [] op = "push_front"    -> PushFront(c, a[1], a[2])
    [] op = "push_front_mv" -> PushFront(c, a[1], a[2])
    [] op = "push_back_own" -> PushBack(c, a[1], At(c, a[1])[a[2] + 1])
    [] op = "push_front_own" -> PushFront(c, a[1], At(c, a[1])[a[2] + 1])
    [] op = "pop_back"      -> PopBack(c, a[1])
    [] op = "pop_front"     -> PopFront(c, a[1])
    [] op = "clear"         -> R0(Put(c, a[1], <<>>))
    [] op = "set"           -> Write(c, a[1], a[2], a[3])
    [] op = "set_it"        -> Write(c, a[1], a[2], a[3])
    [] op = "set_end"       -> Write(c, a[1], IF a[2] = 0 THEN 0 ELSE Len(At(c, a[1])) - 1, a[3])
    [] op = "ends"          -> LET q == At(c, a[1]) IN R(c, <<q[1], Last1(q), q[1], Last1(q)>>)
    [] op = "view"          -> View_(c, a[1], a[2])
    [] op = "diff"          -> Diff(c, a[2], a[3])
    [] op = "copy"          -> R0(Put(c, a[1], At(c, a[2])))
    [] op = "assign"        -> R0(Put(c, a[1], At(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0(Put(Put(c, a[1], At(c, a[2])), a[2], <<>>))
    [] OTHER                -> {}

Slots == 0..(K - 1)
Grow(c)  == {s \in Slots : Len(At(c, s)) < MaxLen}
Some(c)  == {s \in Slots : At(c, s) # <<>>}
Idx(c, s) == 0..(Len(At(c, s)) - 1)
Ends(c) ==
       {<<op, s, v>> : op \in {"push_back", "push_front"}, s \in Grow(c), v \in Vals}
  \cup {<<op, s>> : op \in {"pop_back", "pop_front"}, s \in Some(c)}
  \cup {<<"clear", s>> : s \in Slots}
Content(c) ==
       {<<op, s, v>> : op \in {"push_back_mv", "push_front_mv"}, s \in Grow(c), v \in Vals}
  \cup UNION {{<<op, s, i>> : op \in {"push_back_own", "push_front_own"}, i \in Idx(c, s)} : s \in Grow(c)}
  \cup UNION {{<<op, s, i, v>> : op \in {"set", "set_it"}, i \in Idx(c, s), v \in Vals} : s \in Slots}
  \cup {<<"set_end", s, k, v>> : s \in Some(c), k \in 0..1, v \in Vals}
  \cup {<<"ends", s>> : s \in Some(c)}
  \cup UNION {{<<"make_il", s>> \o q : q \in SeqsUpTo(Vals, Min2(3, MaxLen))} : s \in Slots}
Iteration(c) ==
       {<<"view", s, k>> : s \in Slots, k \in 0..16}
  \cup UNION {{<<"diff", s, i, j>> : i \in 0..Len(At(c, s)), j \in 0..Len(At(c, s))} : s \in Slots}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Ends(c) \cup Content(c)
    [] Group = "iter"    -> Ends(c) \cup Iteration(c)
    [] Group = "objects" -> Ends(c) \cup Objects(c)
    [] OTHER             -> Ends(c) \cup Content(c) \cup Iteration(c) \cup Objects(c)

Inv(c) == \A s \in 1..K : \A i \in 1..Len(c[s]) : c[s][i] \in Vals
Readers == {"ends", "view", "diff"}
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ \A s \in Slots : (s # a[1] /\ ~(op \in {"take", "mtake"} /\ s = a[2])) => At(d, s) = At(c, s)
  \* pushing and popping at the same end cancel, at either end
  /\ op = "push_back"  => PopBack(d, a[1]) = R0(c)
  /\ op = "push_front" => PopFront(d, a[1]) = R0(c)
=============================================================================
