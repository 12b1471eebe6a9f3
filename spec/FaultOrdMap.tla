------------------------------- MODULE FaultOrdMap -------------------------------
(* cest::map when elements or allocations throw (C15) *)
EXTENDS OrdMap
Basic == {"assign", "mtake"}
With(c, s, f) == LET q == [i \in 1..(Len(f) \div 2) |-> <<f[2 * i - 1], f[2 * i]>>] IN
                 IF \A i \in 1..(Len(q) - 1) : Before(q[i][1], q[i + 1][1]) THEN {SetQ(c, s, q)} ELSE {}
Values(c) == UNION {UNION {{c.q[s][i][1], c.q[s][i][2]} : i \in 1..Len(c.q[s])} : s \in 1..K}
INSTANCE FaultKit
=============================================================================
