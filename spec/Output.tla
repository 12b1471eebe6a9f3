---------------------------------- MODULE Output ----------------------------------
(* Run-time output (C21).  Streams 0 cout, 1 cerr, 2 clog, and 3, a stream of *)
(* the client's own that is connected to nothing.  Sinks: 1 standard output,  *)
(* 2 standard error; sink[i] is what was written to it and not yet looked at, *)
(* sure[i] how much of it has left the program for certain (endl flushes, and *)
(* standard error is not buffered).                                           *)
(* base: 10, 16 or 8, per stream.  Numbers are <<neg, limbs...>>: magnitude   *)
(* in 16-bit limbs, the most significant first, as many as the type has (its  *)
(* number: 0 int 1 unsigned 2 long 3 short 4 unsigned short 5 unsigned long   *)
(* 6 long long 7 unsigned long long 8 bool).                                  *)
EXTENDS SeqLib
CONSTANTS MaxPend
Strs == {<<>>, <<65, 0>>}
Nums == {<<0, 0, 0>>, <<1, 0, 1>>, <<0, 1, 255>>}
Init0 == [base |-> <<10, 10, 10>>, sink |-> <<<<>>, <<>>>>, sure |-> <<0, 0>>]
Obs(c) == <<0>>
Key(c) == c.base \o Flat(c.sink) \o c.sure
SinkOf(s) == IF s = 0 THEN 1 ELSE 2
Put(c, s, q) == IF s = 3 THEN c
                ELSE LET t == c.sink[SinkOf(s)] \o q IN
                     [c EXCEPT !.sink[SinkOf(s)] = t, !.sure[2] = IF s # 0 THEN Len(t) ELSE @]
\* standard output is flushed
Flushed(c) == [c EXCEPT !.sure[1] = Len(c.sink[1])]
R == INSTANCE Bulk WITH K <- 1, St <- 0, MaxN <- 0, Ops <- {}, Acct <- 9
Told(q) == <<Len(q)>> \o R!FlatR(q)
RECURSIVE Runs(_)
Runs(a) == IF Len(a) < 2 THEN <<>> ELSE R!Cat(R!Add(<<>>, a[1], a[2]), Runs(SubSeq(a, 3, Len(a))))

\* limbs divided by b: <<quotient limbs, remainder>>
RECURSIVE DivL(_, _, _)
DivL(l, b, rem) == IF l = <<>> THEN <<<<>>, rem>>
                   ELSE LET n == rem * 65536 + l[1]  t == DivL(Tail(l), b, n % b) IN <<<<n \div b>> \o t[1], t[2]>>
Zero(l) == \A i \in 1..Len(l) : l[i] = 0
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digs(_, _)
Digs(l, b) == LET t == DivL(l, b, 0) IN (IF Zero(t[1]) THEN <<>> ELSE Digs(t[1], b)) \o <<Digit(t[2])>>
\* two's complement of the magnitude
RECURSIVE Inc(_)
Inc(l) == IF l = <<>> THEN <<>> ELSE IF Last1(l) = 65535 THEN Inc(Front1(l)) \o <<0>> ELSE Front1(l) \o <<Last1(l) + 1>>
Neg(l) == Inc([i \in 1..Len(l) |-> 65535 - l[i]])
Text(b, neg, l) == IF neg = 0 THEN Digs(l, b) ELSE IF b = 10 THEN <<45>> \o Digs(l, 10) ELSE Digs(Neg(l), b)
CStr(q) == IF \E i \in 1..Len(q) : q[i] = 0
           THEN SubSeq(q, 1, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1)
           ELSE q
Pad(q, n) == Rep(Max2(0, n - Len(q)), 32) \o q
\* the formats; v = <<neg, hi, lo>>, q the string argument
Fmt(f, neg, l, q) ==
  CASE f = 0 -> <<53, 48, 37, 10>>                                              \* "50%%\n"
    [] f = 1 -> <<40>> \o Text(10, neg, l) \o <<32>> \o CStr(q) \o <<41>>       \* "(%d %s)"
    [] f = 2 -> Text(16, neg, l) \o <<124>> \o Pad(Text(10, neg, l), 8)         \* "%x|%8d"
    [] f = 3 -> <<l[2] % 256>> \o <<0>> \o CStr(q)                              \* "%c%c%s", x, 0, q
    [] f = 4 -> CStr(q)                                                         \* "%s"
    [] f \in {5, 6} -> <<>>                                                     \* "", a wide string no bytes can tell
Do(c, op, a) ==
  LET s == a[1] IN
  CASE op = "str"   -> {<<Put(c, s, Tail(a)), <<>>>>}
    [] op \in {"lit", "ulit"} -> {<<Put(c, s, CStr(Tail(a))), <<>>>>}
    [] op = "shr"   -> {<<Put(c, s, CStr(Tail(a))), <<>>>>}                     \* a shared_ptr to characters
    [] op = "chr"   -> {<<Put(c, s, <<a[2]>>), <<>>>>}
    [] op = "num"   -> {<<IF s = 3 THEN c ELSE Put(c, s, Text(c.base[s + 1], a[3], SubSeq(a, 4, Len(a)))), <<>>>>}
    \* a pointer, bare or owned: in hexadecimal whatever the base
    [] op = "ptr"   -> LET l == SubSeq(a, 3, Len(a)) IN {<<Put(c, s, (IF Zero(l) THEN <<>> ELSE <<48, 120>>) \o Digs(l, 16)), <<>>>>}
    [] op = "base"  -> {<<IF s = 3 THEN c ELSE [c EXCEPT !.base[s + 1] = a[2]], <<>>>>}
    [] op = "endl"  -> LET d == Put(c, s, <<10>>) IN {<<IF s = 0 THEN Flushed(d) ELSE d, <<>>>>}
    [] op = "flush" -> {<<IF s = 0 THEN Flushed(c) ELSE c, <<>>>>}
    \* s = -1: printf, otherwise fprintf to the stream
    [] op = "print" -> LET t == Fmt(a[2], a[3], SubSeq(a, 4, 5), SubSeq(a, 6, Len(a))) IN {<<Put(c, IF s = -1 THEN 0 ELSE s, t), <<IF a[2] = 6 THEN -1 ELSE Len(t)>>>>}
    \* everything that has arrived at the two sinks
    [] op = "look"  -> {<<[c EXCEPT !.sink = <<<<>>, <<>>>>, !.sure = <<0, 0>>], Flat(c.sink)>>}
    \* what has arrived without anything being flushed for it
    [] op = "peek"  -> {<<[c EXCEPT !.sink = [i \in 1..2 |-> SubSeq(c.sink[i], n[i] + 1, Len(c.sink[i]))], !.sure = <<0, 0>>],
                          Flat([i \in 1..2 |-> SubSeq(c.sink[i], 1, n[i])])>> :
                        n \in {<<m, Len(c.sink[2])>> : m \in c.sure[1]..Len(c.sink[1])}}
    \* with nothing to be looked at: a text of any length, in runs, one way or
    \* another; what came of it, and what arrived
    [] op = "big"   -> LET q == IF a[2] \in {6, 7} THEN (IF a[2] = 7 THEN <<<<0, 1>>>> ELSE <<>>) \o <<<<32, a[4] - 1>>, <<55, 1>>>> ELSE Runs(SubSeq(a, 3, Len(a))) IN
                       IF c.sink # <<<<>>, <<>>>> THEN {}
                       ELSE {<<c, <<IF a[2] \in {2, 3, 6, 7} THEN R!Count(q) ELSE 0>>
                                  \o (IF SinkOf(s) = 1 THEN Told(q) \o Told(<<>>) ELSE Told(<<>>) \o Told(q))>>}
    [] OTHER        -> {}
-----------------------------------------------------------------------------
Room(c) == Len(c.sink[1]) < MaxPend /\ Len(c.sink[2]) < MaxPend
Acts(c) ==
  {<<"look", 0>>} \cup
  (IF c.sink = <<<<>>, <<>>>> THEN {<<"big", s, w, 65, 2, 66, 1>> : s \in 0..2, w \in 0..5} ELSE {}) \cup
  (IF Room(c) THEN
       {<<op, s>> \o q : op \in {"str", "lit", "ulit", "shr"}, s \in 0..3, q \in Strs}
  \cup {<<"chr", s, x, k>> : s \in 0..3, x \in {0, 65, 255}, k \in 0..2}
  \cup {<<"num", s, 0>> \o n : s \in 0..3, n \in Nums}
  \cup {<<"num", s, k, 0, 1>> : s \in 0..3, k \in {3, 4, 8}}
  \cup {<<"num", s, 3, 1, 2>> : s \in 0..3}
  \cup {<<"num", s, k, 0, 32768, 0, 0, 5>> : s \in 0..3, k \in {5, 7}}
  \cup {<<"ptr", s, w>> \o n : s \in 0..3, w \in 0..3, n \in {<<0, 0, 0, 0>>, <<0, 1, 0, 255>>}}
  \cup {<<"base", s, b>> : s \in 0..2, b \in {8, 10, 16}}
  \cup {<<op, s>> : op \in {"endl", "flush"}, s \in 0..3}
  \cup {<<"print", s, f>> \o n \o q : s \in -1..3, f \in 0..6, n \in Nums, q \in {<<97>>}}
   ELSE {})
Inv(c) == (\A s \in 1..3 : c.base[s] \in {8, 10, 16}) /\ (\A i \in 1..2 : c.sure[i] <= Len(c.sink[i]))
\* what is written comes behind what is there, in one sink at most
Step(c, op, a, r, d) ==
  op \notin {"look", "peek"} => /\ \A i \in 1..2 : Len(d.sink[i]) >= Len(c.sink[i]) /\ SubSeq(d.sink[i], 1, Len(c.sink[i])) = c.sink[i]
                 /\ \E i \in 1..2 : d.sink[i] = c.sink[i]
                 /\ a[1] = 3 => d = c
=============================================================================
