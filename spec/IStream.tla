--------------------------------- MODULE IStream ---------------------------------
(* cest string input streams (C19): K streams, each a text, the position in   *)
(* it, the state bits st (a subset of {1 bad, 2 eof, 4 fail}), the bits exc   *)
(* that raise an exception, and gc, what the last unformatted input counted.  *)
(* A stream opened for output only (out) has nothing to be read.              *)
(* Calls on the stream return <<raised, ...>>, calls on its buffer what they  *)
(* return (-1: end of file).                                                  *)
EXTENDS SeqLib
CONSTANTS K, Chars, MaxLen, Group
BAD == 1
EOF == 2
FAIL == 4
Bits(n) == {b \in {1, 2, 4} : (n \div b) % 2 = 1}
Num(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 4 \in S THEN 4 ELSE 0)
New(q) == [all |-> q, txt |-> q, pos |-> 0, st |-> {}, exc |-> {}, gc |-> 0, out |-> FALSE]
Init0 == [s \in 1..K |-> New(<<>>)]
At(c, s) == c[s + 1]
Put(c, s, x) == [c EXCEPT ![s + 1] = x]
\* rdstate, good, eof, fail, bool conversion, operator!, exceptions, gcount
ObsX(x) == LET bad == x.st \cap {BAD, FAIL} # {} IN
           <<Num(x.st), B(x.st = {}), B(EOF \in x.st), B(bad), B(~bad), B(bad), Num(x.exc), x.gc>>
RECURSIVE ObsS(_, _), KeyS(_, _)
ObsS(c, s) == IF s > K THEN <<>> ELSE ObsX(c[s]) \o ObsS(c, s + 1)
Obs(c) == ObsS(c, 1)
KeyS(c, s) == IF s > K THEN <<>> ELSE <<Len(c[s].all)>> \o c[s].all \o <<c[s].pos, Num(c[s].st), Num(c[s].exc), c[s].gc, B(c[s].out)>> \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1)

Raised(x) == B(x.st \cap x.exc # {})
Left(x) == SubSeq(x.txt, x.pos + 1, Len(x.txt))
NONE == -2      \* the caller's variable is left alone
Do(c, op, a) ==
  LET s == a[1]  x == At(c, a[1])
      P(y) == Put(c, s, y)
      \* the call ends in state y; r follows
      End(y, r) == {<<P(y), <<Raised(y)>> \o r>>}
      Same(r) == {<<c, r>>}
      atend == x.pos >= Len(x.txt)
      ch == IF atend THEN -1 ELSE x.txt[x.pos + 1]
      step == IF atend THEN x ELSE [x EXCEPT !.pos = @ + 1]
  IN
  CASE op = "new"    -> LET q == New(SubSeq(a, 3, Len(a))) IN {<<P(IF a[2] = 7 THEN [q EXCEPT !.txt = <<>>, !.out = TRUE] ELSE q), <<>>>>}
    [] op = "str" /\ x.out -> {<<P([x EXCEPT !.all = Tail(a), !.pos = 0]), <<>>>>}
    [] op = "str"    -> {<<P([x EXCEPT !.all = Tail(a), !.txt = Tail(a), !.pos = 0]), <<>>>>}
    [] op = "get"    -> IF x.st # {} THEN End([x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0], <<NONE>>)
                        ELSE IF atend THEN End([x EXCEPT !.st = {EOF, FAIL}, !.gc = 0], <<NONE>>)
                        ELSE End([step EXCEPT !.gc = 1], <<ch>>)
    \* what was read and the state of the buffer behind it
    [] op = "read"   -> IF x.st # {} THEN End([x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0], <<>>)
                        ELSE LET n == Min2(a[2], Len(Left(x))) IN
                             End([x EXCEPT !.pos = @ + n, !.gc = n, !.st = IF n < a[2] THEN {EOF, FAIL} ELSE {}], SubSeq(Left(x), 1, n))
    [] op = "unget"  -> LET st1 == x.st \ {EOF}  y == [x EXCEPT !.st = st1, !.gc = 0] IN
                        IF st1 \cap x.exc # {} THEN End(y, <<>>)
                        ELSE IF st1 # {} THEN End([y EXCEPT !.st = @ \cup {FAIL}], <<>>)
                        ELSE IF x.pos = 0 THEN End([y EXCEPT !.st = {BAD}], <<>>)
                        ELSE End([y EXCEPT !.pos = @ - 1], <<>>)
    [] op = "clear"  -> End([x EXCEPT !.st = Bits(a[2])], <<>>)
    [] op = "setstate" -> End([x EXCEPT !.st = @ \cup Bits(a[2])], <<>>)
    [] op = "exceptions" -> End([x EXCEPT !.exc = Bits(a[2])], <<>>)
    [] op = "sgetc"  -> Same(<<ch>>)
    [] op = "sbumpc" -> {<<P(step), <<ch>>>>}
    [] op = "snextc" -> {<<P(step), <<IF step.pos >= Len(x.txt) THEN -1 ELSE x.txt[step.pos + 1]>>>>}
    [] op = "sungetc" -> IF x.pos = 0 THEN Same(<<-1>>) ELSE {<<P([x EXCEPT !.pos = @ - 1]), <<x.txt[x.pos]>>>>}
    [] op = "sgetn"  -> LET n == Min2(a[2], Len(Left(x))) IN {<<P([x EXCEPT !.pos = @ + n]), <<n>> \o SubSeq(Left(x), 1, n)>>}
    [] op = "pubsync" -> Same(<<0>>)
    \* str(): all that was given, however much of it has been read
    [] op = "text"   -> Same(x.all)
    \* while (s.get(ch)): the characters
    [] op = "drain"  -> LET y == [x EXCEPT !.pos = IF x.st = {} THEN Len(x.txt) ELSE @, !.gc = 0, !.st = IF x.st = {} THEN {EOF, FAIL} ELSE @ \cup {FAIL}] IN
                        End(y, IF x.st = {} THEN Left(x) ELSE <<>>)
    [] OTHER         -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Texts == SeqsUpTo(Chars, MaxLen)
States == IF Group = "exc" THEN 0..7 ELSE {0, 1, 2, 4, 6}
Acts(c) ==
       {<<"new", s, m>> \o q : s \in Slots, m \in {0}, q \in Texts}
  \cup {<<"new", s, m>> : s \in Slots, m \in (1..4) \cup {7}}
  \cup {<<"str", s>> \o q : s \in Slots, q \in Texts}
  \cup {<<op, s>> : op \in {"get", "unget", "sgetc", "sbumpc", "snextc", "sungetc", "pubsync", "drain", "text"}, s \in Slots}
  \cup {<<op, s, n>> : op \in {"read", "sgetn"}, s \in Slots, n \in 0..(MaxLen + 1)}
  \cup {<<op, s, n>> : op \in {"clear", "setstate"}, s \in Slots, n \in States}
  \cup (IF Group = "exc" THEN {<<"exceptions", s, n>> : s \in Slots, n \in {0, 1, 2, 4, 6, 7}} ELSE {})
Inv(c) == \A s \in 1..K : LET x == c[s] IN x.pos \in 0..Len(x.txt) /\ x.gc >= 0 /\ x.st \subseteq {1, 2, 4}
\* nothing is read through a stream that is not good; what is read lies ahead
Step(c, op, a, r, d) ==
  LET x == At(c, a[1])  y == At(d, a[1]) IN
  /\ op \in {"get", "read", "drain"} /\ x.st # {} => y.pos = x.pos /\ y.gc = 0 /\ FAIL \in y.st
  /\ op \in {"get", "read"} => y.pos = x.pos + y.gc
  /\ op \notin {"new", "str"} => y.txt = x.txt
  /\ op = "unget" => y.pos \in {x.pos, x.pos - 1} /\ EOF \notin y.st
  /\ op \in {"get", "read", "unget", "clear", "setstate", "exceptions", "drain"} => r[1] = B(y.st \cap y.exc # {})
=============================================================================
