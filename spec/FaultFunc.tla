------------------------------- MODULE FaultFunc -------------------------------
(* cest::function when allocations fail (C30): "x_<op>" is the call <op>, the number of   *)
(* the allocation that is to fail behind the arguments.  Told: whether one    *)
(* failed, whether the call did: both or neither.  A call that fails has no   *)
(* effect on any object of the type.                                          *)
EXTENDS Func
Lost(c, op, b) == <<>>
IsX(op) == Len(op) > 2 /\ SubSeq(op, 1, 2) = "x_"
XDo(c, op, a) ==
  IF ~IsX(op) THEN Do(c, op, a)
  ELSE LET in == SubSeq(op, 3, Len(op))  b == SubSeq(a, 1, Len(a) - 1) IN
       {<<d[1], <<0, 0>> \o d[2]>> : d \in Do(c, in, b)} \cup {<<c, <<1, 1>> \o Lost(c, in, b)>>}
=============================================================================
