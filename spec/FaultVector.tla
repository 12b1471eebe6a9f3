------------------------------- MODULE FaultVector -------------------------------
(* cest::vector when elements or allocations throw (C15) *)
EXTENDS Vector
Basic == {"resize", "reserve", "erase", "assign"}
With(c, s, q) == {Put(c, s, q)}
Values(c) == UNION {{c[s][i] : i \in 1..Len(c[s])} : s \in 1..K}
INSTANCE FaultKit
=============================================================================
