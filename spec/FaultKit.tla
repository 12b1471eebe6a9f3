------------------------------- MODULE FaultKit -------------------------------
(* Calls that end in an exception (C15), on top of a container specification: *)
(* "x_<op>" is the call <op> having thrown.                                   *)
(* The calls in Basic leave their target (slot a[1]) valid with a content     *)
(* that is given behind the arguments, followed by its length, and that may   *)
(* be anything made of values the client knows: those of the objects before   *)
(* the call, of the arguments, and the default value 0.  An erase may close   *)
(* the gap by moving elements: thrown half-way, it may leave moved-from ones. *)
(* All other calls have no effect, and no call has an effect on other objects.*)
EXTENDS Integers, Sequences
CONSTANTS Do(_, _, _),
          With(_, _, _),   \* the states in which object s has the given content
          Values(_),       \* the values in the objects
          Basic

IsX(op)    == Len(op) > 2 /\ SubSeq(op, 1, 2) = "x_"
Content(a) == LET n == a[Len(a)] IN SubSeq(a, Len(a) - n, Len(a) - 1)
MovedFrom  == -99          \* what a moved-from element reads as
Known(c, op, a) == Values(c) \cup {a[i] : i \in 1..(Len(a) - a[Len(a)] - 1)} \cup {0}
                   \cup (IF op = "erase" THEN {MovedFrom} ELSE {})
XDo(c, op, a) ==
  IF ~IsX(op) THEN Do(c, op, a)
  ELSE IF SubSeq(op, 3, Len(op)) \in Basic
       THEN LET q == Content(a) IN
            IF \A i \in 1..Len(q) : q[i] \in Known(c, SubSeq(op, 3, Len(op)), a) THEN {<<d, <<>>>> : d \in With(c, a[1], q)} ELSE {}
       ELSE {<<c, <<>>>>}
=============================================================================
