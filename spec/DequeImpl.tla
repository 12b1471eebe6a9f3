------------------------------ MODULE DequeImpl ------------------------------
(* The block table behind cest::deque, for one object: blocks of CS cells,    *)
(* the first element at (fb, f), the last at (bb, b), block numbers modulo    *)
(* nothing (bb may be one before the table while the deque is empty).  TLC    *)
(* checks that every step refines Deque (Step below), that the cursors stay   *)
(* consistent, and that begin()..end() meet; its state graph drives the       *)
(* replay, so that every reachable cursor position is visited in the code.    *)
EXTENDS SeqLib
CONSTANTS CS, Vals, MaxLen, MaxBlocks

D == INSTANCE Deque WITH K <- 1, Group <- "all"

Init0 == [blocks |-> <<Rep(CS, 0)>>, fb |-> 0, f |-> CS \div 2,
          bb |-> 0, b |-> CS \div 2 - 1, n |-> 0]

\* cell at distance k from the first element
Blk(c, k) == c.fb + (c.f + k) \div CS
Off(c, k) == (c.f + k) % CS
Elem(c, k) == c.blocks[Blk(c, k) + 1][Off(c, k) + 1]
Abs(c)  == <<[k \in 1..c.n |-> Elem(c, k - 1)]>>
Obs(c)  == D!Obs(Abs(c))
NB(c)   == Len(c.blocks)
\* the key of a graph node: the whole implementation state
RECURSIVE Cat(_)
Cat(q)  == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Key(c)  == <<c.fb, c.f, c.bb, c.b, c.n, NB(c)>> \o Cat(c.blocks)

Cell(c, blk, off, v) == [c EXCEPT !.blocks[blk + 1][off + 1] = v]
NewBlockBack(c)  == [c EXCEPT !.blocks = Append(@, Rep(CS, 0))]
NewBlockFront(c) == [c EXCEPT !.blocks = <<Rep(CS, 0)>> \o @, !.bb = @ + 1]
Spare(c) == IF c.b = CS - 1 /\ c.bb = NB(c) - 1 THEN NewBlockBack(c) ELSE c

PushBack(c, v) ==
  LET c1 == IF c.b = CS - 1
            THEN [(IF c.bb = NB(c) - 1 THEN NewBlockBack(c) ELSE c) EXCEPT !.bb = @ + 1, !.b = 0, !.n = @ + 1]
            ELSE [c EXCEPT !.b = @ + 1, !.n = @ + 1]
      c2 == Spare(c1)
  IN Cell(c2, c2.bb, c2.b, v)
PushFront(c, v) ==
  LET c1 == IF c.f = 0
            THEN IF c.fb = 0 THEN [NewBlockFront(c) EXCEPT !.f = CS - 1, !.n = @ + 1]
                 ELSE [c EXCEPT !.fb = @ - 1, !.f = CS - 1, !.n = @ + 1]
            ELSE [c EXCEPT !.f = @ - 1, !.n = @ + 1]
  IN Cell(c1, c1.fb, c1.f, v)
PopBack(c) ==
  LET c1 == Cell(c, c.bb, c.b, 0)
  IN IF c.b = 0 THEN [c1 EXCEPT !.bb = @ - 1, !.b = CS - 1, !.n = @ - 1]
     ELSE [c1 EXCEPT !.b = @ - 1, !.n = @ - 1]
PopFront(c) ==
  LET c1 == Cell(c, c.fb, c.f, 0)
  IN IF c.f = CS - 1 THEN [c1 EXCEPT !.fb = @ + 1, !.f = 0, !.n = @ - 1]
     ELSE [c1 EXCEPT !.f = @ + 1, !.n = @ - 1]
Clear(c) == [blocks |-> [i \in 1..NB(c) |-> Rep(CS, 0)], fb |-> NB(c) \div 2, f |-> CS \div 2,
             bb |-> NB(c) \div 2, b |-> CS \div 2 - 1, n |-> 0]

Do(c, op, a) ==
  CASE op = "push_back"  -> {<<PushBack(c, a[2]), <<>>>>}
    [] op = "push_front" -> {<<PushFront(c, a[2]), <<>>>>}
    [] op = "pop_back"   -> {<<PopBack(c), <<>>>>}
    [] op = "pop_front"  -> {<<PopFront(c), <<>>>>}
    [] op = "clear"      -> {<<Clear(c), <<>>>>}
    [] OTHER             -> {}
Acts(c) ==
       {<<op, 0, v>> : op \in (IF c.n < MaxLen /\ NB(c) < MaxBlocks THEN {"push_back", "push_front"} ELSE {}), v \in Vals}
  \cup {<<op, 0>> : op \in (IF c.n > 0 THEN {"pop_back", "pop_front"} ELSE {})}
  \cup {<<"clear", 0>>}

Inv(c) ==
  /\ c.f \in 0..(CS - 1) /\ c.b \in 0..(CS - 1)
  \* the two cursors and the size agree
  /\ c.bb * CS + c.b = c.fb * CS + c.f + c.n - 1
  \* begin() and end() designate cells of existing blocks
  /\ c.fb \in 0..(NB(c) - 1)
  /\ Blk(c, c.n) \in 0..(NB(c) - 1)
  \* no cell outside the elements holds a live element
  /\ Cardinality({<<i, j>> \in (1..NB(c)) \X (1..CS) : c.blocks[i][j] # 0}) = c.n
Step(c, op, a, r, d) == <<Abs(d), r>> \in D!Do(Abs(c), op, a)
=============================================================================
