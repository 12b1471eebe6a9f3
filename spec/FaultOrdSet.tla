------------------------------- MODULE FaultOrdSet -------------------------------
(* cest::set when elements or allocations throw (C15) *)
EXTENDS OrdSet
Basic == {"assign", "mtake"}
With(c, s, q) == IF \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1]) THEN {SetQ(c, s, q)} ELSE {}
Values(c) == UNION {{c.q[s][i] : i \in 1..Len(c.q[s])} : s \in 1..K}
INSTANCE FaultKit
=============================================================================
