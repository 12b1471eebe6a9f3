------------------------------ MODULE DequeBig ------------------------------
(* Deque seen through its size, both ends and the middle only: for histories  *)
(* with thousands of elements, where the whole content is observed by the     *)
(* view operations and not at every step.                                     *)
EXTENDS SeqLib
CONSTANTS K, Vals, MaxLen, Group
D == INSTANCE Deque
Init0 == D!Init0
Do(c, op, a) == D!Do(c, op, a)
Few(q) == IF q = <<>> THEN <<0>> ELSE <<Len(q), q[1], q[Len(q) \div 2 + 1], Last1(q)>>
Obs(c) == Few(c[1])
=============================================================================
