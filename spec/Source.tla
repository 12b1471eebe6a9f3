--------------------------------- MODULE Source ---------------------------------
(* cest input streams over a client's stream buffer (C29).  The buffer brings *)
(* a text in blocks: an element x of the state is                             *)
(*   txt, pos    the text and the position of the next character              *)
(*   lo, hi      the part of the text that is in the buffer, lo <= pos <= hi  *)
(*   bs, keep    characters a block has, and those kept before it; bs = 0:    *)
(*               a buffer without a get area, character by character         *)
(*   back        whether the buffer can go back to before lo (pbackfail)      *)
(*   fuse        position from which on fetching a block throws, once; -1     *)
(*   bfuse       whether going back before lo throws, once                    *)
(*   st, exc, gc the stream, as in IStream; buf: the stream has a buffer      *)
(* A call returns <<what it raised, ...>>: 0 nothing, 1 the stream's failure, *)
(* 2 the exception the buffer threw.                                          *)
EXTENDS SeqLib
CONSTANTS K, Chars, MaxLen, Group
BAD == 1
EOF == 2
FAIL == 4
Bits(n) == {b \in {1, 2, 4} : (n \div b) % 2 = 1}
Num(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 4 \in S THEN 4 ELSE 0)
New(q, bs, keep, back) == [txt |-> q, pos |-> 0, lo |-> 0, hi |-> 0, bs |-> bs, keep |-> keep, back |-> back,
                           fuse |-> -1, bfuse |-> FALSE, st |-> {}, exc |-> {}, gc |-> 0, buf |-> TRUE]
None == [New(<<>>, 1, 0, FALSE) EXCEPT !.st = {BAD}, !.buf = FALSE]
Init0 == [s \in 1..K |-> None]
At(c, s) == c[s + 1]
Put(c, s, x) == [c EXCEPT ![s + 1] = x]
\* rdstate, good, eof, fail, bool conversion, operator!, exceptions, gcount, position
ObsX(x) == LET bad == x.st \cap {BAD, FAIL} # {} IN
           <<Num(x.st), B(x.st = {}), B(EOF \in x.st), B(bad), B(~bad), B(bad), Num(x.exc), x.gc, x.pos>>
RECURSIVE ObsS(_, _), KeyS(_, _)
ObsS(c, s) == IF s > K THEN <<>> ELSE ObsX(c[s]) \o ObsS(c, s + 1)
Obs(c) == ObsS(c, 1)
KeyS(c, s) == IF s > K THEN <<>> ELSE <<Len(c[s].txt)>> \o c[s].txt \o <<c[s].pos, c[s].lo, c[s].hi, c[s].bs, c[s].keep, B(c[s].back), c[s].fuse,
                                       B(c[s].bfuse), Num(c[s].st), Num(c[s].exc), c[s].gc, B(c[s].buf)>> \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1)

\* the buffer's own part: what fetching at the end of a block and going back
\* before its beginning do
Load(x, p) == [x EXCEPT !.pos = p, !.lo = IF x.bs = 0 THEN p ELSE p - Min2(x.keep, p), !.hi = Min2(p + x.bs, Len(x.txt))]
Fetch(x) == IF x.pos < x.hi THEN [x |-> x, how |-> "ok"]
            ELSE IF x.fuse >= 0 /\ x.pos >= x.fuse THEN [x |-> [x EXCEPT !.fuse = -1], how |-> "raise"]
            ELSE IF x.pos >= Len(x.txt) THEN [x |-> x, how |-> "eof"]
            ELSE [x |-> Load(x, x.pos), how |-> "ok"]
\* the public part: one character forwards, one back, n forwards
Fwd(x) == LET f == Fetch(x) IN IF f.how = "ok" THEN [x |-> IF x.bs = 0 THEN Load(f.x, x.pos + 1) ELSE [f.x EXCEPT !.pos = @ + 1], how |-> "ok", ch |-> x.txt[x.pos + 1]]
                                ELSE [x |-> f.x, how |-> f.how, ch |-> -1]
Rev1(x) == IF x.pos > x.lo THEN [x |-> [x EXCEPT !.pos = @ - 1], how |-> "ok", ch |-> x.txt[x.pos]]
           ELSE IF x.bfuse THEN [x |-> [x EXCEPT !.bfuse = FALSE], how |-> "raise", ch |-> -1]
           ELSE IF x.back /\ x.pos > 0 THEN [x |-> Load(x, x.pos - 1), how |-> "ok", ch |-> x.txt[x.pos]]
           ELSE [x |-> x, how |-> "eof", ch |-> -1]
RECURSIVE TakeN(_, _)
TakeN(x, n) == IF n = 0 THEN [x |-> x, how |-> "ok", q |-> <<>>]
              ELSE LET t == Fwd(x) IN
                   IF t.how # "ok" THEN [x |-> t.x, how |-> t.how, q |-> <<>>]
                   ELSE LET u == TakeN(t.x, n - 1) IN [u EXCEPT !.q = <<t.ch>> \o @]
\* the characters there are before the end of the text or an exception
RECURSIVE Rest(_)
Rest(x) == LET t == Fwd(x) IN IF t.how # "ok" THEN [x |-> t.x, how |-> t.how, q |-> <<>>] ELSE LET u == Rest(t.x) IN [u EXCEPT !.q = <<t.ch>> \o @]

Full(x) == IF x.buf THEN x ELSE [x EXCEPT !.st = @ \cup {BAD}]
NONE == -2      \* the caller's variable is left alone
Do(c, op, a) ==
  LET s == a[1]  x == At(c, a[1])
      \* the call ends in state y, having looked at the exception mask; r follows
      Fin(y0, r) == LET y == Full(y0) IN {<<Put(c, s, y), <<B(y.st \cap y.exc # {})>> \o r>>}
      \* ... having thrown what the buffer threw
      Thrown(y, r) == {<<Put(c, s, y), <<2>> \o r>>}
      Stay(y, r) == {<<Put(c, s, y), r>>}
      \* the buffer threw within an input function
      Broken(y, r, more) == IF BAD \in y.exc THEN Thrown([y EXCEPT !.st = @ \cup {BAD}], r) ELSE Fin([y EXCEPT !.st = @ \cup {BAD} \cup more], r)
      Raw(t, r) == IF t.how = "raise" THEN Thrown(t.x, <<>>) ELSE Stay(t.x, <<0>> \o r)
  IN
  CASE op = "new"    -> {<<Put(c, s, New(SubSeq(a, 5, Len(a)), a[2], a[3], a[4] = 1)), <<>>>>}
    [] op = "none"   -> {<<Put(c, s, None), <<>>>>}
    \* a copy of the buffer, where it stands, with a stream of its own
    [] op = "copy"   -> {<<Put(c, s, [x EXCEPT !.st = {}, !.exc = {}, !.gc = 0]), <<>>>>}
    \* the stream is given the same buffer anew; another stream over the same
    \* buffer reads one character of it: that stream's state, and what it read
    [] op = "init"   -> {<<Put(c, s, [x EXCEPT !.st = IF x.buf THEN {} ELSE {BAD}, !.exc = {}]), <<>>>>}
    [] op = "peer"   -> LET t == Fwd(x) IN IF ~x.buf THEN Stay(x, <<BAD + FAIL, NONE>>)
                        ELSE Stay(t.x, CASE t.how = "ok" -> <<0, t.ch>> [] t.how = "eof" -> <<EOF + FAIL, NONE>> [] OTHER -> <<BAD + FAIL, NONE>>)
    [] op = "fuse"   -> {<<Put(c, s, [x EXCEPT !.fuse = a[2]]), <<>>>>}
    [] op = "bfuse"  -> {<<Put(c, s, [x EXCEPT !.bfuse = TRUE]), <<>>>>}
    [] op = "get"    -> IF x.st # {} THEN Fin([x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0], <<NONE>>)
                        ELSE LET t == Fwd([x EXCEPT !.gc = 0]) IN
                             IF t.how = "raise" THEN Broken(t.x, <<NONE>>, {FAIL})
                             ELSE IF t.how = "eof" THEN Fin([t.x EXCEPT !.st = {EOF, FAIL}], <<NONE>>)
                             ELSE Fin([t.x EXCEPT !.gc = 1], <<t.ch>>)
    \* how much was counted when the buffer threw half-way is left open
    [] op = "read"   -> IF x.st # {} THEN Fin([x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0], <<>>)
                        ELSE LET t == TakeN(x, a[2]) IN
                             IF t.how = "raise" THEN UNION {Broken([t.x EXCEPT !.gc = n], <<>>, {}) : n \in 0..Len(t.q)}
                             ELSE Fin([t.x EXCEPT !.gc = Len(t.q), !.st = IF t.how = "eof" THEN {EOF, FAIL} ELSE {}], t.q)
    [] op = "unget"  -> LET st1 == Full([x EXCEPT !.st = @ \ {EOF}]).st  y == [x EXCEPT !.st = st1, !.gc = 0] IN
                        IF st1 \cap x.exc # {} THEN Fin(y, <<>>)
                        ELSE IF st1 # {} THEN Fin([y EXCEPT !.st = @ \cup {FAIL}], <<>>)
                        ELSE LET t == Rev1(y) IN
                             IF t.how = "raise" THEN Broken(t.x, <<>>, {})
                             ELSE IF t.how = "eof" THEN Fin([t.x EXCEPT !.st = {BAD}], <<>>)
                             ELSE Fin(t.x, <<>>)
    [] op = "clear"  -> Fin([x EXCEPT !.st = Bits(a[2])], <<>>)
    [] op = "setstate" -> Fin([x EXCEPT !.st = @ \cup Bits(a[2])], <<>>)
    [] op = "exceptions" -> Fin([x EXCEPT !.exc = Bits(a[2])], <<>>)
    [] op = "sgetc"  -> LET f == Fetch(x) IN Raw(f, <<IF f.how = "ok" THEN x.txt[x.pos + 1] ELSE -1>>)
    [] op = "sbumpc" -> LET t == Fwd(x) IN Raw(t, <<t.ch>>)
    [] op = "snextc" -> LET t == Fwd(x) IN IF t.how # "ok" THEN Raw(t, <<-1>>)
                        ELSE LET f == Fetch(t.x) IN Raw(f, <<IF f.how = "ok" THEN x.txt[x.pos + 2] ELSE -1>>)
    [] op = "sungetc" -> LET t == Rev1(x) IN Raw(t, <<t.ch>>)
    [] op = "sgetn"  -> LET t == TakeN(x, a[2]) IN Raw(t, <<Len(t.q)>> \o t.q)
    [] op = "pubsync" -> Stay(x, <<0, x.pos>>)       \* the buffer's sync answers so
    \* an output stream over the buffer, with exception mask a[2], is flushed; the
    \* buffer's sync succeeds, fails or throws: what came of the output stream
    [] op = "flush"  -> LET st == (IF x.buf /\ a[3] = 0 THEN {} ELSE {BAD})  exc == Bits(a[2]) IN
                        Stay(x, <<IF ~x.buf \/ BAD \notin exc THEN 0 ELSE a[3], Num(st), B(x.buf /\ a[3] = 0)>>)
    \* while (s.get(ch)): the characters
    [] op = "drain"  -> IF x.st # {} THEN Fin([x EXCEPT !.st = @ \cup {FAIL}, !.gc = 0], <<>>)
                        ELSE LET t == Rest([x EXCEPT !.gc = 0]) IN
                             IF t.how = "raise" THEN Broken(t.x, t.q, {FAIL}) ELSE Fin([t.x EXCEPT !.st = {EOF, FAIL}], t.q)
    [] OTHER         -> {}
---------------------------------------------------------------------------------
Slots == 0..(K - 1)
Texts == SeqsUpTo(Chars, MaxLen)
Long == {q \in Texts : Len(q) = MaxLen /\ \A i \in 1..Len(q) : q[i] = IF i % 2 = 1 THEN CHOOSE v \in Chars : \A w \in Chars : v <= w ELSE CHOOSE v \in Chars : \A w \in Chars : v >= w}
States == IF Group = "exc" THEN {0, 1, 4} ELSE {0, 1, 2, 4, 6}
Acts(c) ==
       (IF Group = "exc" THEN {} ELSE {<<"none", s>> : s \in Slots})
  \cup {<<"new", s, b, k, r>> \o q : s \in Slots, b \in (IF Group = "exc" THEN {0, 1} ELSE 0..(MaxLen - 1)), k \in (IF Group = "exc" THEN {0} ELSE 0..1), r \in 0..1, q \in Long}
  \cup {<<op, s>> : op \in {"get", "unget", "drain", "init", "peer"}, s \in Slots}
  \cup {<<"flush", s, n, w>> : s \in Slots, n \in {0, 1, 6}, w \in 0..2}
  \cup {<<"read", s, n>> : s \in Slots, n \in 0..(MaxLen + 1)}
  \cup {<<op, s, n>> : op \in {"clear", "setstate"}, s \in Slots, n \in States}
  \cup {<<op, s>> : op \in {"sgetc", "sbumpc", "snextc", "sungetc", "pubsync", "copy"}, s \in {z \in Slots : At(c, z).buf}}
  \cup {<<"sgetn", s, n>> : s \in {z \in Slots : At(c, z).buf}, n \in (IF Group = "exc" THEN {MaxLen} ELSE 0..(MaxLen + 1))}
  \cup (IF Group = "exc" THEN {<<"exceptions", s, n>> : s \in Slots, n \in {0, 1, 4}} \cup
          {<<"fuse", s, n>> : s \in {z \in Slots : At(c, z).buf}, n \in {0, 1}} \cup {<<"bfuse", s>> : s \in {z \in Slots : At(c, z).buf}} ELSE {})
Inv(c) == \A s \in 1..K : LET x == c[s] IN
  x.lo <= x.pos /\ x.pos <= x.hi /\ x.hi <= Len(x.txt) /\ x.gc >= 0 /\ x.st \subseteq {1, 2, 4} /\ (~x.buf => BAD \in x.st)
\* nothing is read through a stream that is not good; what is read is the text
\* from the position on, and as much as is counted (unless the buffer throws)
Step(c, op, a, r, d) ==
  LET x == At(c, a[1])  y == At(d, a[1]) IN
  /\ op \in {"get", "read", "drain"} /\ x.st # {} => y.pos = x.pos /\ y.gc = 0 /\ FAIL \in y.st
  /\ op \in {"get", "read"} /\ BAD \notin y.st => y.pos = x.pos + y.gc
  /\ op = "read" /\ BAD \notin y.st => Tail(r) = SubSeq(x.txt, x.pos + 1, x.pos + y.gc)
  /\ op = "drain" /\ x.st = {} => Tail(r) = SubSeq(x.txt, x.pos + 1, y.pos) /\ (BAD \notin y.st => y.pos = Len(x.txt))
  /\ op \notin {"new", "none"} => y.txt = x.txt
  /\ op = "peer" => y.st = x.st /\ y.gc = x.gc
  /\ op = "unget" => y.pos \in {x.pos, x.pos - 1} /\ EOF \notin y.st
  /\ op \in {"get", "read", "unget", "clear", "setstate", "exceptions", "drain"} => ((r[1] # 0) <=> (y.st \cap y.exc # {}))
=================================================================================
