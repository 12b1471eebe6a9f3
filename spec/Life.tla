--------------------------------- MODULE Life ---------------------------------
(* Objects and storage (C14): what happens to elements and memory blocks in   *)
(* one history of container calls.                                            *)
(*   b     the allocated blocks: id -> <<bytes, kind>> (kind 1, 2, ...: from  *)
(*         an allocator, each number one that is unlike the others, 0: from   *)
(*         operator new)                                                      *)
(*   live  the places <<block, offset>> that hold an element                  *)
(*   out   the elements outside of any block: temporaries, variables          *)
(*   from  the allocator all storage of the call must come from, 0 for any    *)
(* A call is the sequence of the events it caused, five numbers each:         *)
(*   1 id n k   a block of n bytes was allocated                              *)
(*   2 id n k   it was released, n being the size given to the release or -1  *)
(*   3 p        an element was constructed at place p = <<block, offset>>     *)
(*   4 p q      ... from the element at q                                     *)
(*   5 p q      the element at p was assigned the one at q                    *)
(*   6 p        the element at p was destroyed                                *)
(*   9 k        what follows makes a container that has been given allocator k *)
(* Ids are never reused.                                                      *)
EXTENDS SeqLib, TLC
CONSTANTS Bytes, Offs, MaxIds         \* bounds for Acts

Init0 == [b |-> <<>>, live |-> {}, out |-> {}, next |-> 0, from |-> 0]
Bad   == [b |-> <<>>, live |-> {}, out |-> {}, next |-> -1, from |-> 0]
Obs(c) == <<>>

Allocated(c, id) == id \in DOMAIN c.b
Live(c, p)       == p \in c.live \/ p \in c.out
Add(c, p) == IF p[1] = -1 THEN [c EXCEPT !.out = @ \cup {p}] ELSE [c EXCEPT !.live = @ \cup {p}]
Del(c, p) == IF p[1] = -1 THEN [c EXCEPT !.out = @ \ {p}] ELSE [c EXCEPT !.live = @ \ {p}]
\* in storage that is allocated, or outside of any
Place(c, p) == p[1] = -1 \/ (Allocated(c, p[1]) /\ p[2] >= 0 /\ p[2] < c.b[p[1]][1])

Event(c, k, x, y, z, w) ==
  LET p == <<x, y>>  q == <<z, w>> IN
  CASE k = 1 -> IF x = c.next /\ (c.from = 0 \/ z \in {0, c.from}) THEN [c EXCEPT !.b = (x :> <<y, z>>) @@ @, !.next = @ + 1] ELSE Bad
    \* released once, with its size, by what allocated it, holding no element
    [] k = 2 -> IF Allocated(c, x) /\ c.b[x][2] = z /\ y \in {-1, c.b[x][1]} /\ \A l \in c.live : l[1] # x
                THEN [c EXCEPT !.b = [i \in DOMAIN c.b \ {x} |-> c.b[i]]] ELSE Bad
    \* constructed only where there is room and no element yet
    [] k = 3 -> IF Place(c, p) /\ ~Live(c, p) THEN Add(c, p) ELSE Bad
    [] k = 4 -> IF Place(c, p) /\ ~Live(c, p) /\ Live(c, q) THEN Add(c, p) ELSE Bad
    [] k = 5 -> IF Live(c, p) /\ Live(c, q) THEN c ELSE Bad
    [] k = 6 -> IF Live(c, p) THEN Del(c, p) ELSE Bad
    [] k = 9 -> [c EXCEPT !.from = x]
    [] OTHER -> Bad
RECURSIVE Run(_, _, _)
Run(c, a, i) == IF i > Len(a) \/ c = Bad THEN c
                ELSE Run(Event(c, a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4]), a, i + 5)

Do(c, op, a) ==
  LET d == [Run(c, a, 1) EXCEPT !.from = 0] IN
  IF d = Bad THEN {}
  \* the result of a call: the number of elements the containers report
  ELSE CASE op = "call" -> IF d.out = {} THEN {<<d, <<Cardinality(d.live)>>>>} ELSE {}
    \* the containers are gone
         [] op = "gone" -> IF d.out = {} /\ d.live = {} /\ DOMAIN d.b = {} THEN {<<d, <<0>>>>} ELSE {}
         \* any other sequence of events (for the model below)
         [] op = "part" -> {<<d, <<>>>>}
         [] OTHER -> {}

-----------------------------------------------------------------------------
\* an arbitrary user of storage, one event at a time
Places(c) == {<<i, o>> : i \in DOMAIN c.b, o \in Offs} \cup {<<-1, o>> : o \in Offs}
Try(c) ==
       (IF c.next < MaxIds THEN {<<"part", 1, c.next, n, k, 0>> : n \in Bytes, k \in 0..2} ELSE {})
  \cup {<<"part", 2, i, n, k, 0>> : i \in DOMAIN c.b, n \in Bytes \cup {-1}, k \in 0..2}
  \cup {<<"part", 3, p[1], p[2], 0, 0>> : p \in Places(c)}
  \cup {<<"part", k, p[1], p[2], q[1], q[2]>> : k \in 4..5, p \in Places(c), q \in Places(c)}
  \cup {<<"part", 6, p[1], p[2], 0, 0>> : p \in Places(c)}
Acts(c) == {l \in Try(c) : Do(c, l[1], Tail(l)) # {}}
\* every element lies in allocated storage, and no two in the same place
Inv(c) == /\ \A p \in c.live : Allocated(c, p[1]) /\ p[2] < c.b[p[1]][1]
          /\ \A p \in c.out : p[1] = -1
          /\ \A i \in DOMAIN c.b : i < c.next
\* elements come into being and end one at a time; a block that goes takes none along
Step(c, op, a, r, d) ==
  /\ Cardinality(d.live) + Cardinality(d.out) - Cardinality(c.live) - Cardinality(c.out) =
       (CASE a[1] \in {3, 4} -> 1 [] a[1] = 6 -> -1 [] OTHER -> 0)
  /\ a[1] = 2 => (DOMAIN d.b = DOMAIN c.b \ {a[2]} /\ a[2] \in DOMAIN c.b)
  /\ a[1] \notin {1, 2} => d.b = c.b
=============================================================================
