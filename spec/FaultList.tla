------------------------------- MODULE FaultList -------------------------------
(* cest::list when elements or allocations throw (C15) *)
EXTENDS List
Basic == {"assign", "mtake"}
With(c, s, q) == {SetQ(c, s, q)}
Values(c) == UNION {{c.q[s][i] : i \in 1..Len(c.q[s])} : s \in 1..K}
INSTANCE FaultKit
=============================================================================
