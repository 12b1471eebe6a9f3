------------------------------- MODULE FaultFifo -------------------------------
(* cest::queue when elements or allocations throw (C15) *)
EXTENDS Fifo
Basic == {}
With(c, s, q) == {}
Values(c) == {}
INSTANCE FaultKit
=============================================================================
