------------------------------ MODULE StreamBig ------------------------------
(* String streams and memory files over texts of any length (C19, C20): as    *)
(* IStream and Stdio, with the text kept as its maximal runs <<code, n>> and  *)
(* what is read told in runs too.  K slots: nothing, a file or a stream.      *)
EXTENDS SeqLib
CONSTANTS K, MaxN
R == INSTANCE Bulk WITH K <- 1, St <- 0, MaxN <- 0, Ops <- {}, Acct <- 9
EOF == 2
FAIL == 4
None == [k |-> 0, q |-> <<>>, pos |-> 0, st |-> {}, gc |-> 0]
Init0 == [s \in 1..K |-> None]
At(c, s) == c[s + 1]
Put(c, s, x) == [c EXCEPT ![s + 1] = x]
Num(S) == (IF EOF \in S THEN EOF ELSE 0) + (IF FAIL \in S THEN FAIL ELSE 0)
RECURSIVE ObsS(_, _), KeyS(_, _), Runs(_)
ObsS(c, s) == IF s > K THEN <<>> ELSE <<c[s].k, Num(c[s].st), c[s].gc>> \o ObsS(c, s + 1)
Obs(c) == ObsS(c, 1)
KeyS(c, s) == IF s > K THEN <<>> ELSE <<Len(c[s].q)>> \o R!FlatR(c[s].q) \o <<c[s].k, c[s].pos, Num(c[s].st), c[s].gc>> \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1)
\* the runs in a call's arguments; neighbours join
Runs(a) == IF Len(a) < 2 THEN <<>> ELSE R!Cat(R!Add(<<>>, a[1], a[2]), Runs(SubSeq(a, 3, Len(a))))
Told(q) == <<Len(q)>> \o R!FlatR(q)

Do(c, op, a) ==
  LET s == a[1]  x == At(c, a[1])
      P(y) == Put(c, s, y)
      size == R!Count(x.q)
      left == R!Drop(x.q, x.pos)
      m == Min2(a[2], size - x.pos)
      Fails == [x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0]
  IN
  CASE op = "file"   -> {<<P([None EXCEPT !.k = 1, !.q = Runs(Tail(a))]), <<>>>>}
    [] op = "stream" -> {<<P([None EXCEPT !.k = 2, !.q = Runs(Tail(a))]), <<>>>>}
    [] op = "end"    -> {<<P(None), <<0>>>>}
    \* a stream's text replaced
    [] op = "str"    -> {<<P([x EXCEPT !.q = Runs(Tail(a)), !.pos = 0]), <<>>>>}
    [] op = "fread"  -> {<<P([x EXCEPT !.pos = @ + m]), <<m>> \o Told(R!Take(left, m))>>}
    [] op = "read"   -> IF x.st # {} THEN {<<P(Fails), Told(<<>>)>>}
                        ELSE {<<P([x EXCEPT !.pos = @ + m, !.gc = m, !.st = IF m < a[2] THEN {EOF, FAIL} ELSE {}]), Told(R!Take(left, m))>>}
    \* until it fails, one at a time
    [] op = "drain"  -> IF x.st # {} THEN {<<P(Fails), Told(<<>>)>>}
                        ELSE {<<P([x EXCEPT !.pos = size, !.gc = 0, !.st = {EOF, FAIL}]), Told(left)>>}
    \* back by a[2] characters, one at a time
    [] op = "back"   -> {<<P([x EXCEPT !.pos = @ - a[2], !.gc = 0, !.st = {}]), <<>>>>}
    [] op = "clear"  -> {<<P([x EXCEPT !.st = {}]), <<>>>>}
    \* the buffer's own
    [] op = "sgetn"  -> {<<P([x EXCEPT !.pos = @ + m]), <<m>> \o Told(R!Take(left, m))>>}
    [] op = "sbumpn" -> {<<P([x EXCEPT !.pos = @ + m]), Told(R!Take(left, m))>>}
    [] OTHER         -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Of(c, k) == {s \in Slots : At(c, s).k = k}
Texts == {<<>>} \cup {<<v, n>> : v \in {0, 200}, n \in 1..MaxN} \cup {<<0, n, 200, MaxN - n>> : n \in 1..(MaxN - 1)}
Acts(c) ==
       {<<op, s>> \o q : op \in {"file", "stream"}, s \in Of(c, 0), q \in Texts}
  \cup {<<"str", s>> \o q : s \in Of(c, 2), q \in Texts}
  \cup {<<"end", s>> : s \in Of(c, 1) \cup Of(c, 2)}
  \cup {<<"fread", s, n>> : s \in Of(c, 1), n \in 0..(MaxN + 1)}
  \cup {<<op, s, n>> : op \in {"read", "sgetn", "sbumpn"}, s \in Of(c, 2), n \in 0..(MaxN + 1)}
  \cup {<<op, s, 0>> : op \in {"drain", "clear"}, s \in Of(c, 2)}
  \cup UNION {{<<"back", s, n>> : n \in 1..At(c, s).pos} : s \in {t \in Of(c, 2) : FAIL \notin At(c, t).st}}
Inv(c) == \A s \in 1..K : c[s].pos \in 0..R!Count(c[s].q)
\* on plain sequences: what was read is what lay ahead
RECURSIVE FromTold(_)
FromTold(r) == IF Len(r) < 2 THEN <<>> ELSE Rep(r[2], r[1]) \o FromTold(SubSeq(r, 3, Len(r)))
Step(c, op, a, r, d) ==
  LET x == At(c, a[1])  y == At(d, a[1])  t == R!Exp(x.q) IN
  /\ op \in {"fread", "sgetn"} => FromTold(SubSeq(r, 3, Len(r))) = SubSeq(t, x.pos + 1, y.pos) /\ r[1] = y.pos - x.pos /\ (r[1] < a[2] => y.pos = Len(t))
  /\ op \in {"read", "drain", "sbumpn"} => FromTold(SubSeq(r, 2, Len(r))) = SubSeq(t, x.pos + 1, y.pos)
  /\ op = "read" => y.gc = y.pos - x.pos
  /\ \A s \in Slots : s # a[1] => At(d, s) = At(c, s)
=============================================================================
