-------------------------------- MODULE Mute ---------------------------------
(* Output in constant expressions (C31): whatever is written to cout, cerr,   *)
(* clog (s = 0, 1, 2), to a stream of one's own (3) or by printf (4), nothing *)
(* is to be seen of it: the call gives the stream back (or the number 0), and *)
(* the stream stays good and keeps its buffer.                                *)
EXTENDS SeqLib
Ops == {"str", "lit", "chr", "num", "base", "endl", "flush", "print", "ptr", "get"}
Init0 == <<1, 1>>
Obs(c) == c
Do(c, op, a) == IF op \in Ops /\ a[1] \in 0..4 /\ (a[1] = 4 => op = "print") THEN {<<c, <<1>>>>} ELSE {}
Acts(c) == {<<op, s, x>> : op \in Ops, s \in 0..3, x \in 0..3} \cup {<<"print", 4, x>> : x \in 0..3}
Inv(c) == c = Init0
Step(c, op, a, r, d) == d = c /\ r = <<1>>
=============================================================================
