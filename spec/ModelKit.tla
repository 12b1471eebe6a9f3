------------------------------ MODULE ModelKit ------------------------------
(* Turns a component specification into a state machine for TLC.            *)
(* A component specification provides                                       *)
(*   Init0         the initial abstract state                               *)
(*   Acts(c)       the calls that may be made in state c, <<op, args...>>   *)
(*   Do(c, op, a)  the outcomes <<next state, result>> the call may have    *)
(*   Obs(c)        what a client can observe of c, as integers              *)
(*   Inv(c), Step(c, op, a, r, d)   what must hold of states and of steps   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Do(_, _, _), Obs(_), Acts(_), Init0, Inv(_), Step(_, _, _, _, _)
VARIABLES c, ret, lbl

Init == c = Init0 /\ ret = <<>> /\ lbl = <<"init">>
Next == \E l \in Acts(c) : \E o \in Do(c, l[1], Tail(l)) :
          c' = o[1] /\ ret' = o[2] /\ lbl' = l
vars == <<c, ret, lbl>>
Spec == Init /\ [][Next]_vars

StateInv == Inv(c)
StepProp == [][Step(c, lbl'[1], Tail(lbl'), ret', c')]_vars
View     == c
\* every call of Acts has an outcome: the preconditions are stated in Acts
Total    == \A l \in Acts(c) : Do(c, l[1], Tail(l)) # {}
\* the observation determines the state (so that the walk of the graph in
\* the implementation knows where it is)
Emit == PrintT("T" \o ToJson(<<Obs(c), lbl', ret', Obs(c')>>))
=============================================================================
