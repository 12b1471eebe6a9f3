------------------------------- MODULE FaultSPtr -------------------------------
(* cest::shared_ptr when allocations fail (C30): "x_<op>" is the call <op>, the number of   *)
(* the allocation that is to fail behind the arguments.  Told: whether one    *)
(* failed, whether the call did: both or neither.  A call that fails has no   *)
(* effect on any object of the type.                                          *)
EXTENDS SPtr
\* an object that could not be given an owner ends as its deleter prescribes
Lost(c, op, b) == IF op = "make" THEN Cry(b[2], Fresh(c)) ELSE <<>>
\* only what makes a new control block asks for memory; a copy cannot fail
May(op) == op = "make"
IsX(op) == Len(op) > 2 /\ SubSeq(op, 1, 2) = "x_"
XDo(c, op, a) ==
  IF ~IsX(op) THEN Do(c, op, a)
  ELSE LET in == SubSeq(op, 3, Len(op))  b == SubSeq(a, 1, Len(a) - 1) IN
       {<<d[1], <<0, 0>> \o d[2]>> : d \in Do(c, in, b)} \cup {<<c, <<1, 1>> \o Lost(c, in, b)>> : x \in {1} \cap {IF May(in) THEN 1 ELSE 0}}
=============================================================================
