------------------------------- MODULE FaultStr -------------------------------
(* cest::basic_string when allocations throw (C15) *)
EXTENDS Str
Basic == {"assign", "mtake", "assign_lit", "assign_own", "append", "plus_eq", "append_cnt", "append_own", "reserve"}
With(c, s, q) == {Put(c, s, q)}
Values(c) == UNION {{c[s][i] : i \in 1..Len(c[s])} : s \in 1..K}
INSTANCE FaultKit
=============================================================================
