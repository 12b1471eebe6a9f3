-------------------------------- MODULE RBTree --------------------------------
(* The red-black insertion behind cest::set and cest::map (C07, C08, C09):   *)
(* a tree is <<>> or <<colour, left, key, right>>; insertion descends,       *)
(* attaches a red leaf and rebalances on the way back up, and the root is    *)
(* made black.  Checked: the order, colour and black-height invariants, the  *)
(* refinement of the ordered sequence of OrdSet / OrdMap, and the bound on   *)
(* the number of comparisons for every tree that insertion can reach.  The   *)
(* state graph is replayed in the real code: every reachable tree shape,     *)
(* every insertion and every find in it.                                     *)
EXTENDS SeqLib
CONSTANTS N, Map      \* keys 1..N; whether the calls are those of map

Red == 0
Black == 1
Init0 == <<>>
Node(col, l, x, r) == <<col, l, x, r>>
Col(t) == IF t = <<>> THEN Black ELSE t[1]
L(t) == t[2]
X(t) == t[3]
R(t) == t[4]
IsRed(t) == Col(t) = Red

\* the four cases of two red nodes in a row below a black one
Balance(t) ==
  IF IsRed(t) THEN t
  ELSE IF IsRed(L(t)) /\ IsRed(L(L(t)))
       THEN LET y == L(t) IN
            Node(Red, Node(Black, L(L(y)), X(L(y)), R(L(y))), X(y), Node(Black, R(y), X(t), R(t)))
  ELSE IF IsRed(L(t)) /\ IsRed(R(L(t)))
       THEN LET x == L(t)  y == R(L(t)) IN
            Node(Red, Node(Black, L(x), X(x), L(y)), X(y), Node(Black, R(y), X(t), R(t)))
  ELSE IF IsRed(R(t)) /\ IsRed(L(R(t)))
       THEN LET z == R(t)  y == L(R(t)) IN
            Node(Red, Node(Black, L(t), X(t), L(y)), X(y), Node(Black, R(y), X(z), R(z)))
  ELSE IF IsRed(R(t)) /\ IsRed(R(R(t)))
       THEN LET y == R(t)  z == R(R(t)) IN
            Node(Red, Node(Black, L(t), X(t), L(y)), X(y), Node(Black, L(z), X(z), R(z)))
  ELSE t
RECURSIVE Ins_(_, _)
Ins_(t, k) == IF t = <<>> THEN Node(Red, <<>>, k, <<>>)
              ELSE IF k < X(t) THEN Balance(Node(t[1], Ins_(L(t), k), X(t), R(t)))
              ELSE IF X(t) < k THEN Balance(Node(t[1], L(t), X(t), Ins_(R(t), k)))
              ELSE t
Insert(t, k) == LET u == Ins_(t, k) IN Node(Black, L(u), X(u), R(u))

RECURSIVE InOrder(_), Height(_), BlackH(_), NoRedRed(_), SameBlack(_)
InOrder(t)  == IF t = <<>> THEN <<>> ELSE InOrder(L(t)) \o <<X(t)>> \o InOrder(R(t))
Height(t)   == IF t = <<>> THEN 0 ELSE 1 + Max2(Height(L(t)), Height(R(t)))
BlackH(t)   == IF t = <<>> THEN 0 ELSE Col(t) + BlackH(L(t))
NoRedRed(t) == t = <<>> \/ (/\ IsRed(t) => (~IsRed(L(t)) /\ ~IsRed(R(t)))
                            /\ NoRedRed(L(t)) /\ NoRedRed(R(t)))
SameBlack(t) == t = <<>> \/ (BlackH(L(t)) = BlackH(R(t)) /\ SameBlack(L(t)) /\ SameBlack(R(t)))
\* comparator calls: up to two per node on the way down
RECURSIVE Cost(_, _)
Cost(t, k) == IF t = <<>> THEN 0 ELSE IF k < X(t) THEN 1 + Cost(L(t), k) ELSE 2 + (IF X(t) < k THEN Cost(R(t), k) ELSE 0)
\* 2^h <= (n + 1)^2, that is h <= 2 log2(n + 1)
HeightOk(t) == 2 ^ Height(t) <= (Len(InOrder(t)) + 1) ^ 2

Old(k) == k + 20            \* the value an entry is first inserted with
Dup(k) == k + 40            \* and one offered later, which must not be taken
RECURSIVE WithVals(_)
WithVals(q) == IF q = <<>> THEN <<>> ELSE <<q[1], Old(q[1])>> \o WithVals(Tail(q))
Obs(c) == LET q == InOrder(c) IN <<Len(q)>> \o (IF Map THEN WithVals(q) ELSE q)
Key(c) == LET RECURSIVE Code(_) Code(t) == IF t = <<>> THEN <<0>> ELSE <<X(t) * 2 + Col(t)>> \o Code(L(t)) \o Code(R(t)) IN Code(c)
Member(q, k) == \E i \in 1..Len(q) : q[i] = k
Rank(q, k)   == Cardinality({i \in 1..Len(q) : q[i] < k})
Ent(k)       == IF Map THEN <<k, Old(k)>> ELSE <<k>>
Nothing      == IF Map THEN <<-1, -1>> ELSE <<-1>>
Found(q, k)  == IF Member(q, k) THEN <<Rank(q, k)>> \o Ent(k) ELSE <<Len(q)>> \o Nothing

Do(c, op, a) ==
  LET q == InOrder(c)  k == a[2] IN
  CASE op = "insert" -> LET d == Insert(c, k) IN {<<d, Found(InOrder(d), k) \o <<B(~Member(q, k))>>>>}
    [] op = "find"   -> {<<c, Found(q, k)>>}
    [] OTHER         -> {}
Acts(c) == {<<"insert", 0, k>> \o (IF ~Map THEN <<>> ELSE IF Member(InOrder(c), k) THEN <<Dup(k)>> ELSE <<Old(k)>>) : k \in 1..N}
           \cup {<<"find", 0, k, j>> : k \in 1..N, j \in 0..1}

Inv(c) == /\ LET q == InOrder(c) IN \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
          /\ NoRedRed(c) /\ SameBlack(c) /\ HeightOk(c) /\ ~IsRed(c)
          \* at most 2 comparisons per level, one more for the first element
          /\ \A k \in 1..N : Cost(c, k) <= 2 * Height(c)
Step(c, op, a, r, d) ==
  LET q == InOrder(c)  k == a[2] IN
  op = "insert" => InOrder(d) = IF Member(q, k) THEN q ELSE Ins(q, Rank(q, k), k)
=============================================================================
