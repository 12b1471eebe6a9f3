---------------------------------- MODULE Stdio ----------------------------------
(* fmemopen, fread, fclose (C20): K FILEs, each closed (<<>>) or a text and   *)
(* the position in it.  scribble: the client overwrites the buffer it opened  *)
(* the file on.                                                               *)
EXTENDS SeqLib
CONSTANTS K, Chars, MaxLen, Group
Init0 == [s \in 1..K |-> <<>>]
At(c, s) == c[s + 1]
Put(c, s, x) == [c EXCEPT ![s + 1] = x]
Open(q) == <<[txt |-> q, pos |-> 0]>>
RECURSIVE KeyS(_, _), OpenN(_, _)
KeyS(c, s) == IF s > K THEN <<>> ELSE (IF c[s] = <<>> THEN <<-1>> ELSE <<Len(c[s][1].txt)>> \o c[s][1].txt \o <<c[s][1].pos>>) \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1)
OpenN(c, s) == IF s > K THEN 0 ELSE Len(c[s]) + OpenN(c, s + 1)
Obs(c) == <<OpenN(c, 1), 1>>
Do(c, op, a) ==
  LET s == a[1]  x == At(c, a[1]) IN
  CASE op = "open"     -> {<<Put(c, s, Open(Tail(a))), <<>>>>}
    \* the number of characters, and the characters
    [] op = "read"     -> LET y == x[1]  n == Min2(a[2], Len(y.txt) - y.pos) IN
                          {<<Put(c, s, <<[y EXCEPT !.pos = @ + n]>>), <<n>> \o SubSeq(y.txt, y.pos + 1, y.pos + n)>>}
    [] op = "scribble" -> {<<c, <<>>>>}
    [] op = "close"    -> {<<Put(c, s, <<>>), <<0>>>>}
    [] OTHER           -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
IsOpen(c) == {s \in Slots : At(c, s) # <<>>}
Acts(c) == {<<"open", s>> \o q : s \in Slots \ IsOpen(c), q \in SeqsUpTo(Chars, MaxLen)}
      \cup {<<"read", s, n>> : s \in IsOpen(c), n \in 0..(MaxLen + 1)}
      \cup {<<op, s>> : op \in {"scribble", "close"}, s \in IsOpen(c)}
Inv(c) == \A s \in IsOpen(c) : At(c, s)[1].pos \in 0..Len(At(c, s)[1].txt)
\* short only at the end; the others are not concerned
Step(c, op, a, r, d) ==
  /\ op = "read" /\ r[1] < a[2] => At(d, a[1])[1].pos = Len(At(d, a[1])[1].txt)
  /\ \A t \in Slots : t # a[1] => At(d, t) = At(c, t)
=============================================================================
