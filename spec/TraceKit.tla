------------------------------ MODULE TraceKit ------------------------------
(* Checks a recorded history of the real code against a component           *)
(* specification: S is the set of abstract states the history so far may    *)
(* have led to; an event nothing explains empties it.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Do(_, _, _), Obs(_), Init0,
          Events      \* the recorded history, <<[op, a, r, s], ...>>
VARIABLES i, S

Unseen     == <<-999999>>     \* the state was not looked at after this call
Outs(e)    == UNION {Do(s, e.op, e.a) : s \in S}
After(e)   == IF e.op = "reset"
              THEN IF Obs(Init0) = e.s THEN {Init0} ELSE {}
              ELSE {o[1] : o \in {x \in Outs(e) : x[2] = e.r /\ (e.s = Unseen \/ Obs(x[1]) = e.s)}}
Reject(e)  == PrintT("REJECT" \o ToJson([at |-> i + 1, op |-> e.op, a |-> e.a, r |-> e.r, s |-> e.s,
                 allowed |-> IF e.op = "reset" THEN {} ELSE {<<x[2], Obs(x[1])>> : x \in Outs(e)}]))
Init == i = 0 /\ S = {Init0}
Next == /\ i < Len(Events)
        /\ S # {}
        /\ i' = i + 1
        /\ S' = After(Events[i + 1])
        /\ IF S' = {} THEN Reject(Events[i + 1]) ELSE TRUE
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Events)>>)
=============================================================================
