------------------------------- MODULE SeqLib -------------------------------
(* Operators on finite sequences shared by the component specifications.    *)
EXTENDS Integers, Sequences, FiniteSets

Rev(q)        == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Rep(n, v)     == [i \in 1..n |-> v]
\* 0-based, half open: elements i .. j-1
Sub(q, i, j)  == SubSeq(q, i + 1, j)
Cut(q, i, j)  == SubSeq(q, 1, i) \o SubSeq(q, j + 1, Len(q))
Ins(q, i, x)  == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Front1(q)     == SubSeq(q, 1, Len(q) - 1)
Last1(q)      == q[Len(q)]
B(p)          == IF p THEN 1 ELSE 0
Max2(x, y)    == IF x >= y THEN x ELSE y
Min2(x, y)    == IF x <= y THEN x ELSE y
\* concatenation of <<Len(q)>> \o q for every q of a sequence of sequences
\* q as view k of n sees it, those of back from the end; view n is all of them in turn
View1(q, k, back) == IF k \in back THEN Rev(q) ELSE q
RECURSIVE ViewsTo(_, _, _)
ViewsTo(q, k, back) == IF k = 0 THEN <<>> ELSE ViewsTo(q, k - 1, back) \o View1(q, k - 1, back)
Views(q, k, n, back) == IF k = n THEN ViewsTo(q, n, back) ELSE View1(q, k, back)
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>>
            ELSE <<Len(qs[1])>> \o qs[1] \o Flat(Tail(qs))
\* all sequences over V of length at most n
SeqsUpTo(V, n) == UNION {[1..k -> V] : k \in 0..n}
=============================================================================
