--------------------------------- MODULE Alg ---------------------------------
(* The re-exported algorithms over the iterators of cest's containers (C23). *)
(* State: the sequence a of the container worked on, the sequence b of a     *)
(* second container, and the sequence o an output iterator filled.  Positions*)
(* are 0-based and ranges half open, [f, l).                                 *)
(* Where an algorithm is free to choose (sort with equivalent elements,      *)
(* heaps, partition, nth_element), a recorded call carries the arrangement   *)
(* chosen after its arguments; without it, all arrangements are outcomes.    *)
EXTENDS SeqLib
CONSTANTS Lvl,      \* what a's iterators can do: 1 forward, 2 bidirectional, 3 random access
          Adv,      \* they work with algorithms that step by n
          SetA,     \* a is a set: sorted, read only
          SetO,     \* the output goes into a set
          Vals, MaxLen, Group
Init0 == [a |-> <<>>, b |-> <<>>, o |-> <<>>]
Obs(c) == Flat(<<c.a, c.b, c.o>>)

Coarse(x) == x \div 4                          \* the coarse order: equivalent elements differ
F(x, y) == ((3 * x + y) % 97) + 1             \* a fold that shows the order of its operands
G(x) == ((5 * x) % 97) + 1
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
\* 0-based position of the first (last) i in f..l-1 with P, else l
FirstP(f, l, P(_)) == LET S == {i \in f..(l - 1) : P(i)} IN IF S = {} THEN l ELSE MinSet(S)
LastP(f, l, P(_)) == LET S == {i \in f..(l - 1) : P(i)} IN IF S = {} THEN l ELSE MaxSet(S)
Where(q, P(_)) == LET RECURSIVE W(_) W(i) == IF i > Len(q) THEN <<>> ELSE IF P(q[i]) THEN <<q[i]>> \o W(i + 1) ELSE W(i + 1) IN W(1)
Uniq(q) == LET RECURSIVE W(_) W(i) == IF i > Len(q) THEN <<>> ELSE IF i > 1 /\ q[i - 1] = q[i] THEN W(i + 1) ELSE <<q[i]>> \o W(i + 1) IN W(1)
Map(q, H(_)) == [i \in 1..Len(q) |-> H(q[i])]
RECURSIVE Fold(_, _)
Fold(acc, q) == IF q = <<>> THEN acc ELSE Fold(F(acc, q[1]), Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Scan(q) == [i \in 1..Len(q) |-> IF i = 1 THEN q[1] ELSE Fold(q[1], SubSeq(q, 2, i))]
Set(q, f, m) == [i \in 1..Len(q) |-> IF i > f /\ i <= f + Len(m) THEN m[i - f] ELSE q[i]]   \* overwrite from f
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
IsPerm(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(q) : Count(p, q[i]) = Count(q, q[i])
Sorted(q, K(_)) == \A i \in 1..(Len(q) - 1) : K(q[i]) <= K(q[i + 1])
Id(x) == x
IsSorted(q) == Sorted(q, Id)
RECURSIVE InsertStable(_, _, _)
InsertStable(q, x, i) == IF i = 0 \/ Coarse(q[i]) <= Coarse(x) THEN Ins(q, i, x) ELSE InsertStable(q, x, i - 1)
RECURSIVE StableSort(_)
StableSort(q) == IF q = <<>> THEN <<>> ELSE LET s == StableSort(Front1(q)) IN InsertStable(s, Last1(q), Len(s))
RECURSIVE InsertId(_, _, _)
InsertId(q, x, i) == IF i = 0 \/ q[i] <= x THEN Ins(q, i, x) ELSE InsertId(q, x, i - 1)
RECURSIVE SortId(_)
SortId(q) == IF q = <<>> THEN <<>> ELSE LET s == SortId(Front1(q)) IN InsertId(s, Last1(q), Len(s))
\* parent of every element is not less
Heap(q) == \A i \in 2..Len(q) : q[i \div 2] >= q[i]
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
                 ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE LexLess(Tail(p), Tail(q))
Matches(q, p, i) == i + Len(p) <= Len(q) /\ Sub(q, i, i + Len(p)) = p
\* the output container after the elements of q were inserted one by one
RECURSIVE IntoSet(_)
IntoSet(q) == LET S == {q[i] : i \in 1..Len(q)} RECURSIVE W(_) W(T) == IF T = {} THEN <<>> ELSE <<MinSet(T)>> \o W(T \ {MinSet(T)}) IN W(S)
Out(q) == IF SetO THEN IntoSet(q) ELSE q
\* merge of sorted sequences: first's before second's
RECURSIVE Merge(_, _)
Merge(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p
               ELSE IF q[1] < p[1] THEN <<q[1]>> \o Merge(p, Tail(q)) ELSE <<p[1]>> \o Merge(Tail(p), q)
MergeKey(p, q) == LET RECURSIVE M(_, _) M(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x
                     ELSE IF Coarse(y[1]) < Coarse(x[1]) THEN <<y[1]>> \o M(x, Tail(y)) ELSE <<x[1]>> \o M(Tail(x), y) IN M(p, q)
\* set operations on sorted sequences with repetitions: multiplicities
RECURSIVE SetOp(_, _, _, _)
SetOp(S, p, q, k) == IF S = {} THEN <<>> ELSE
  LET x == MinSet(S) m == Count(p, x) n == Count(q, x)
      t == CASE k = 0 -> Max2(m, n) [] k = 1 -> Min2(m, n) [] k = 2 -> Max2(m - n, 0) [] k = 3 -> Max2(m - n, n - m)
  IN Rep(t, x) \o SetOp(S \ {x}, p, q, k)
SetOps(k, p, q) == SetOp({p[i] : i \in 1..Len(p)} \cup {q[i] : i \in 1..Len(q)}, p, q, k)
\* all arrangements of q (only used for small q)
Arrangements(q) == {[i \in 1..Len(q) |-> q[p[i]]] : p \in {h \in [1..Len(q) -> 1..Len(q)] : \A i, j \in 1..Len(q) : i # j => h[i] # h[j]}}
\* the arrangements of a's range [f, l) that a choosing call may leave: given, or any
Chosen(c, a, n, f, l, P(_)) ==
  LET q == Sub(c.a, f, l)
      all == IF Len(a) > n THEN {Sub(SubSeq(a, n + 1, Len(a)), f, l)} ELSE Arrangements(q)
  IN {Set(c.a, f, p) : p \in {x \in all : IsPerm(x, q) /\ P(x)}}
NextPerm(q) ==   \* the next arrangement in lexicographic order, and whether there was one
  LET S == {i \in 1..(Len(q) - 1) : q[i] < q[i + 1]} IN
  IF S = {} THEN <<Rev(q), 0>>
  ELSE LET i == MaxSet(S) j == MaxSet({k \in (i + 1)..Len(q) : q[k] > q[i]})
           s == [q EXCEPT ![i] = q[j], ![j] = q[i]]
       IN <<SubSeq(s, 1, i) \o Rev(SubSeq(s, i + 1, Len(s))), 1>>
PrevPerm(q) ==
  LET S == {i \in 1..(Len(q) - 1) : q[i] > q[i + 1]} IN
  IF S = {} THEN <<Rev(q), 0>>
  ELSE LET i == MaxSet(S) j == MaxSet({k \in (i + 1)..Len(q) : q[k] < q[i]})
           s == [q EXCEPT ![i] = q[j], ![j] = q[i]]
       IN <<SubSeq(s, 1, i) \o Rev(SubSeq(s, i + 1, Len(s))), 1>>

R(c, r) == {<<c, r>>}
PutA(c, q) == [c EXCEPT !.a = q]
PutO(c, q) == [c EXCEPT !.o = Out(q)]
RA(c, q) == {<<PutA(c, q), <<>>>>}
RO(c, q) == {<<PutO(c, q), <<>>>>}

Read(c, op, a) ==
  LET f == a[1] l == a[2] v == a[3] q == Sub(c.a, f, l) IN
  CASE op = "find"     -> R(c, <<FirstP(f, l, LAMBDA i : c.a[i + 1] = v)>>)
    [] op = "find_if"  -> R(c, <<FirstP(f, l, LAMBDA i : c.a[i + 1] > v), FirstP(f, l, LAMBDA i : ~(c.a[i + 1] > v))>>)
    [] op = "count"    -> R(c, <<Count(q, v), Len(Where(q, LAMBDA x : x > v))>>)
    [] op = "quant"    -> R(c, <<B(\A i \in 1..Len(q) : q[i] > v), B(\E i \in 1..Len(q) : q[i] > v), B(\A i \in 1..Len(q) : ~(q[i] > v))>>)
    [] op = "adjacent" -> R(c, <<LET S == {i \in f..(l - 2) : c.a[i + 1] = c.a[i + 2]} IN IF S = {} THEN l ELSE MinSet(S)>>)
    \* by the coarse order: first smallest, first largest; together: first smallest, last largest
    [] op = "minmax"   -> R(c, IF q = <<>> THEN <<l, l, l, l>> ELSE
                            LET mn == MinSet({Coarse(q[i]) : i \in 1..Len(q)}) mx == MaxSet({Coarse(q[i]) : i \in 1..Len(q)})
                                m == FirstP(f, l, LAMBDA i : Coarse(c.a[i + 1]) = mn)
                            IN <<m, FirstP(f, l, LAMBDA i : Coarse(c.a[i + 1]) = mx), m, LastP(f, l, LAMBDA i : Coarse(c.a[i + 1]) = mx)>>)
    [] op = "fold"     -> R(c, <<Fold(v, q), Sum(q)>>)
    [] op = "sorted"   -> R(c, <<B(IsSorted(q)), LET S == {i \in (f + 1)..(l - 1) : c.a[i + 1] < c.a[i]} IN IF S = {} THEN l ELSE MinSet(S)>>)
    [] op = "each"     -> R(c, q)
    [] op = "parted"   -> LET bad == \E i, j \in 1..Len(q) : i < j /\ ~(q[i] > v) /\ q[j] > v IN
                          R(c, IF bad THEN <<0, l>> ELSE <<1, f + Len(Where(q, LAMBDA x : x > v))>>)
    [] op = "search_n" -> LET S == {i \in f..(l - a[4]) : \A k \in 0..(a[4] - 1) : c.a[i + k + 1] = v} IN
                          R(c, <<IF a[4] = 0 THEN f ELSE IF S = {} THEN l ELSE MinSet(S)>>)
    \* on values: the first and the last, by the coarse order and by their own; then with the middle one before them
    [] op = "values"   -> R(c, IF q = <<>> THEN <<>> ELSE
         LET x == q[1] y == Last1(q) z == c.a[((f + l) \div 2) + 1]
             lo == IF Coarse(y) < Coarse(x) THEN y ELSE x   hi == IF Coarse(x) < Coarse(y) THEN y ELSE x
             t == <<z, x, y>>  K(m) == LET i == CHOOSE i \in 1..3 : Coarse(t[i]) = m /\ \A j \in 1..3 : Coarse(t[j]) = m => j >= i IN t[i]
             L(m) == LET i == CHOOSE i \in 1..3 : Coarse(t[i]) = m /\ \A j \in 1..3 : Coarse(t[j]) = m => j <= i IN t[i]
             cs == {Coarse(t[i]) : i \in 1..3}
         IN <<lo, hi, lo, IF lo = x /\ ~(Coarse(y) < Coarse(x)) THEN y ELSE x,
              IF y < x THEN y ELSE x, IF x < y THEN y ELSE x, IF y < x THEN y ELSE x, IF y < x THEN x ELSE y,
              K(MinSet(cs)), K(MaxSet(cs)), K(MinSet(cs)), L(MaxSet(cs))>>)
    [] op = "plain"    -> R(c, (IF q = <<>> THEN <<l, l, l, l>> ELSE
                            LET mn == MinSet({q[i] : i \in 1..Len(q)}) mx == MaxSet({q[i] : i \in 1..Len(q)})
                                m == FirstP(f, l, LAMBDA i : c.a[i + 1] = mn)
                            IN <<m, FirstP(f, l, LAMBDA i : c.a[i + 1] = mx), m, LastP(f, l, LAMBDA i : c.a[i + 1] = mx)>>)
                          \o <<LET S == {i \in (f + 1)..(l - 1) : Coarse(c.a[i + 1]) < Coarse(c.a[i])} IN IF S = {} THEN l ELSE MinSet(S), B(Sorted(q, Coarse))>>
                          \o <<Sum(q) + v, Sum(q) + v, Sum(q), Sum(q) + v>>)
Pair(c, op, a) ==
  LET f == a[1] l == a[2] q == Sub(c.a, f, l) w == c.b n == Min2(Len(q), Len(w)) IN
  CASE op = "equal"    -> R(c, <<B(q = w)>>)
    [] op = "mismatch" -> LET S == {i \in 1..n : q[i] # w[i]} k == IF S = {} THEN n ELSE MinSet(S) - 1 IN R(c, <<f + k, k>>)
    [] op = "lexless"  -> R(c, <<B(LexLess(q, w)), B(LexLess(w, q))>>)
    [] op = "search"   -> LET S == {i \in 0..Len(q) : Matches(q, w, i)} IN R(c, <<IF S = {} THEN l ELSE f + MinSet(S)>>)
    [] op = "find_end" -> LET S == {i \in 0..Len(q) : Matches(q, w, i)} IN R(c, <<IF w = <<>> \/ S = {} THEN l ELSE f + MaxSet(S)>>)
    [] op = "find_any" -> R(c, <<FirstP(f, l, LAMBDA i : Count(w, c.a[i + 1]) > 0)>>)
    [] op = "perm_of"  -> R(c, <<B(IsPerm(q, w))>>)
    [] op = "inner"    -> R(c, <<Sum([i \in 1..Len(q) |-> q[i] * w[i]])>>)           \* b is long enough
    [] op = "pplain"   -> LET S == {i \in 1..n : q[i] # w[i]} k == IF S = {} THEN n ELSE MinSet(S) - 1
                              T == {i \in 0..Len(q) : Matches(q, w, i)}
                              u == SubSeq(w, 1, l - f) IN
         R(c, <<B(q = w), f + k, k, B(LexLess(q, w)), IF T = {} THEN l ELSE f + MinSet(T), FirstP(f, l, LAMBDA i : Count(w, c.a[i + 1]) > 0), B(IsPerm(q, w))>>
              \o IF a[3] = 0 THEN <<>> ELSE <<B(q = u), f + k, k, B(IsPerm(q, u))>>)
    [] op = "includes" -> R(c, <<B(\A i \in 1..Len(w) : Count(q, w[i]) >= Count(w, w[i]))>>)   \* both sorted
Bounds(c, op, a) ==    \* a sorted
  LET v == a[1] n == Len(c.a)
      lo == FirstP(0, n, LAMBDA i : ~(c.a[i + 1] < v)) hi == FirstP(0, n, LAMBDA i : c.a[i + 1] > v)
  IN R(c, <<lo, hi, lo, hi, B(Count(c.a, v) > 0)>>)
Output(c, op, a) ==
  LET f == a[1] l == a[2] q == Sub(c.a, f, l) w == c.b IN
  CASE op = "copy"       -> RO(c, q)
    [] op = "copy_if"    -> RO(c, Where(q, LAMBDA x : x > a[3]))
    [] op = "remove_copy"-> RO(c, Where(q, LAMBDA x : x # a[3]))
    [] op = "unique_copy"-> RO(c, Uniq(q))
    [] op = "replace_copy" -> RO(c, Map(q, LAMBDA x : IF x = a[3] THEN a[4] ELSE x))
    [] op = "transform"  -> RO(c, Map(q, G))
    [] op = "transform2" -> RO(c, [i \in 1..Len(q) |-> F(q[i], w[i])])                \* b is long enough
    [] op = "partial_sum"-> RO(c, Scan(q))
    [] op = "inc_scan"   -> RO(c, Scan(q))
    [] op = "exc_scan"   -> RO(c, [i \in 1..Len(q) |-> Fold(a[3], SubSeq(q, 1, i - 1))])
    [] op = "adj_diff"   -> RO(c, [i \in 1..Len(q) |-> IF i = 1 THEN q[1] ELSE F(q[i], q[i - 1])])
    [] op = "reverse_copy" -> RO(c, Rev(q))
    [] op = "rotate_copy"  -> RO(c, Sub(c.a, a[3], l) \o Sub(c.a, f, a[3]))
    [] op = "merge"      -> RO(c, Merge(q, w))                                       \* both sorted
    [] op = "set_op"     -> RO(c, SetOps(a[3], q, w))
    [] op = "part_copy"  -> {<<PutO(PutA(c, c.a), Where(q, LAMBDA x : x > a[3]) \o Where(q, LAMBDA x : ~(x > a[3]))), <<Len(Where(q, LAMBDA x : x > a[3]))>>>>}
Output2(c, op, a) ==
  LET f == a[1] l == a[2] q == Sub(c.a, f, l) g == Map(q, G) IN
  CASE op \in {"copy_n", "move_out"} -> RO(c, q)
    [] op = "move_back"       -> {<<PutO(c, q), <<0>>>>}
    [] op = "remove_copy_if"  -> RO(c, Where(q, LAMBDA x : ~(x > a[3])))
    [] op = "replace_copy_if" -> RO(c, Map(q, LAMBDA x : IF x > a[3] THEN a[4] ELSE x))
    [] op = "t_inc_scan"      -> RO(c, Scan(g))
    [] op = "t_exc_scan"      -> RO(c, [i \in 1..Len(q) |-> Fold(a[3], SubSeq(g, 1, i - 1))])
    [] op = "psort_copy"      -> LET k == Min2(a[3], Len(q)) IN
                                 {<<PutO(c, SubSeq(IF a[4] = 1 THEN Rev(SortId(q)) ELSE SortId(q), 1, k)), <<k>>>>}
Mutate(c, op, a) ==
  LET f == a[1] l == a[2] q == Sub(c.a, f, l) s == c.a IN
  CASE op = "fill"     -> RA(c, Set(s, f, Rep(l - f, a[3])))
    [] op = "fill_n"   -> {<<PutA(c, Set(s, f, Rep(l - f, a[3]))), <<l>>>>}
    [] op = "generate_n" -> {<<PutA(c, Set(s, f, [i \in 1..Len(q) |-> a[3] + 3 * i])), <<l>>>>}
    [] op = "replace_if" -> RA(c, Set(s, f, Map(q, LAMBDA x : IF x > a[3] THEN a[4] ELSE x)))
    [] op = "replace"  -> RA(c, Set(s, f, Map(q, LAMBDA x : IF x = a[3] THEN a[4] ELSE x)))
    [] op = "apply_g"    -> RA(c, Set(s, f, Map(q, G)))
    [] op = "iota"     -> RA(c, Set(s, f, [i \in 1..Len(q) |-> a[3] + i - 1]))
    [] op = "generate" -> RA(c, Set(s, f, [i \in 1..Len(q) |-> a[3] + 2 * i]))
    [] op = "scan"     -> RA(c, Set(s, f, Scan(q)))
    [] op = "reverse"  -> RA(c, Set(s, f, Rev(q)))
    [] op = "rotate"   -> {<<PutA(c, Set(s, f, Sub(s, a[3], l) \o Sub(s, f, a[3]))), <<f + l - a[3]>>>>}
    [] op = "remove"   -> LET k == Where(q, LAMBDA x : x # a[3]) IN {<<PutA(c, SubSeq(s, 1, f) \o k), <<f + Len(k)>>>>}   \* l is the end; then erased
    [] op = "remove_if"-> LET k == Where(q, LAMBDA x : ~(x > a[3])) IN {<<PutA(c, SubSeq(s, 1, f) \o k), <<f + Len(k)>>>>}
    [] op = "unique"   -> LET k == Uniq(q) IN {<<PutA(c, SubSeq(s, 1, f) \o k), <<f + Len(k)>>>>}
    [] op = "swap_ranges" -> {<<[c EXCEPT !.a = Set(s, f, SubSeq(c.b, 1, l - f)), !.b = Set(c.b, 0, q)], <<l - f>>>>}
    [] op = "iter_swap"-> RA(c, [s EXCEPT ![f + 1] = s[l + 1], ![l + 1] = s[f + 1]])
    [] op = "copy_in"  -> {<<PutA(c, Set(s, f, c.b)), <<f + Len(c.b)>>>>}
    [] op = "copy_down"-> {<<PutA(c, Set(s, a[3], q)), <<a[3] + l - f>>>>}           \* to a[3] <= f
    [] op = "copy_up"  -> {<<PutA(c, Set(s, a[3] - (l - f), q)), <<a[3] - (l - f)>>>>}  \* ending at a[3] >= l
    [] op = "next_perm"-> LET p == NextPerm(q) IN {<<PutA(c, Set(s, f, p[1])), <<p[2]>>>>}
    [] op = "prev_perm"-> LET p == PrevPerm(q) IN {<<PutA(c, Set(s, f, p[1])), <<p[2]>>>>}
    [] op = "stable_sort" -> RA(c, Set(s, f, StableSort(q)))
    [] op = "sort"        -> RA(c, Set(s, f, SortId(q)))
    [] op = "sort_desc"   -> RA(c, Set(s, f, Rev(SortId(q))))
    [] op = "stable_part" -> LET t == Where(q, LAMBDA x : x > a[3]) IN
                             {<<PutA(c, Set(s, f, t \o Where(q, LAMBDA x : ~(x > a[3])))), <<f + Len(t)>>>>}
    [] op = "inplace_merge" -> RA(c, Set(s, f, MergeKey(Sub(s, f, a[3]), Sub(s, a[3], l))))   \* both parts sorted by Coarse
    \* free to choose
    [] op = "sort_key"  -> {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 2, f, l, LAMBDA p : Sorted(p, Coarse))}
    [] op = "partition" -> LET k == Len(Where(q, LAMBDA x : x > a[3])) IN
         {<<PutA(c, x), <<f + k>>>> : x \in Chosen(c, a, 3, f, l, LAMBDA p : \A i \in 1..Len(p) : (p[i] > a[3]) = (i <= k))}
    [] op = "nth"       -> LET z == SortId(q) k == a[3] - f IN
         {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 3, f, l, LAMBDA p : k >= Len(p) \/ (p[k + 1] = z[k + 1]
              /\ (\A i \in 1..k : p[i] <= p[k + 1]) /\ (\A i \in (k + 2)..Len(p) : p[i] >= p[k + 1])))}
    [] op = "partial_sort" -> LET z == SortId(q) k == a[3] - f IN
         {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 3, f, l, LAMBDA p : SubSeq(p, 1, k) = SubSeq(z, 1, k))}
    [] op = "shuffle"   -> {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 3, f, l, LAMBDA p : TRUE)}
    [] op = "make_heap" -> {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 2, f, l, Heap)}
    [] op = "push_heap" -> {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 2, f, l, Heap)}
    [] op = "pop_heap"  -> LET mx == MaxSet({q[i] : i \in 1..Len(q)}) IN
         {<<PutA(c, x), <<>>>> : x \in Chosen(c, a, 2, f, l, LAMBDA p : Heap(Front1(p)) /\ Last1(p) = mx)}
    [] op = "sort_heap" -> RA(c, Set(s, f, SortId(q)))
    [] op = "is_heap"   -> LET S == {i \in 2..Len(q) : q[i \div 2] < q[i]} IN R(c, <<B(Heap(q)), IF S = {} THEN l ELSE f + MinSet(S) - 1>>)

ReadOps   == {"find", "find_if", "count", "quant", "adjacent", "minmax", "fold", "sorted", "each", "parted", "search_n", "values", "plain"}
PairOps   == {"equal", "mismatch", "lexless", "search", "find_end", "find_any", "perm_of", "inner", "includes", "pplain"}
OutOps    == {"copy", "copy_if", "remove_copy", "unique_copy", "replace_copy", "transform", "transform2", "partial_sum", "inc_scan",
              "exc_scan", "adj_diff", "reverse_copy", "rotate_copy", "merge", "set_op", "part_copy"}
Out2Ops   == {"copy_n", "remove_copy_if", "replace_copy_if", "move_out", "move_back", "t_inc_scan", "t_exc_scan", "psort_copy"}
Do(c, op, a) ==
  CASE op = "clro" -> {<<[c EXCEPT !.o = <<>>], <<>>>>}
    [] op = "seta" -> {<<PutA(c, IF SetA THEN IntoSet(a) ELSE a), <<>>>>}
    [] op = "setb" -> {<<[c EXCEPT !.b = a], <<>>>>}
    [] op \in ReadOps -> Read(c, op, a)
    [] op \in PairOps -> Pair(c, op, a)
    [] op = "bounds"  -> Bounds(c, op, a)
    [] op \in OutOps  -> Output(c, op, a)
    [] op \in Out2Ops -> Output2(c, op, a)
    [] OTHER -> Mutate(c, op, a)

-----------------------------------------------------------------------------
Ranges(q) == UNION {{<<f, l>> : f \in 0..l} : l \in 0..Len(q)}
V0 == Vals \cup {0}
RdActs(c) == {<<op, p[1], p[2], v>> : op \in ReadOps \ {"search_n", "minmax", "each", "sorted", "adjacent", "values"}, p \in Ranges(c.a), v \in V0}
        \cup {<<op, p[1], p[2], 0>> : op \in {"minmax", "each", "sorted", "adjacent", "values"}, p \in Ranges(c.a)}
        \cup {<<"search_n", p[1], p[2], v, n>> : p \in Ranges(c.a), v \in Vals, n \in 0..2}
PrActs(c) == {<<op, p[1], p[2]>> : op \in PairOps \ {"inner", "includes", "pplain"}, p \in Ranges(c.a)}
        \cup {<<"pplain", p[1], p[2], B(p[2] - p[1] <= Len(c.b))>> : p \in Ranges(c.a)}
        \cup {<<"inner", p[1], p[2]>> : p \in {x \in Ranges(c.a) : x[2] - x[1] <= Len(c.b)}}
        \cup {<<"includes", p[1], p[2]>> : p \in {x \in Ranges(c.a) : IsSorted(Sub(c.a, x[1], x[2])) /\ IsSorted(c.b)}}
        \cup {<<"bounds", v>> : v \in IF Adv /\ IsSorted(c.a) THEN V0 ELSE {}}
In(n, S) == IF Lvl >= n THEN S ELSE {}
OtActs(c) == {<<op, p[1], p[2], v>> : op \in {"copy_if", "remove_copy", "exc_scan", "part_copy"}, p \in Ranges(c.a), v \in Vals}
        \cup {<<op, p[1], p[2]>> : op \in {"copy", "unique_copy", "transform", "partial_sum", "inc_scan", "adj_diff"}, p \in Ranges(c.a)}
        \cup {<<"replace_copy", p[1], p[2], v, w>> : p \in Ranges(c.a), v \in Vals, w \in Vals}
        \cup {<<"transform2", p[1], p[2]>> : p \in {x \in Ranges(c.a) : x[2] - x[1] <= Len(c.b)}}
        \cup {<<"reverse_copy", p[1], p[2]>> : p \in IF Lvl >= 2 THEN Ranges(c.a) ELSE {}}
        \cup UNION {{<<"rotate_copy", p[1], p[2], m>> : m \in p[1]..p[2]} : p \in Ranges(c.a)}
        \cup {<<op, p[1], p[2], v>> : op \in {"remove_copy_if", "t_exc_scan"}, p \in Ranges(c.a), v \in Vals}
        \cup {<<op, p[1], p[2]>> : op \in {"copy_n", "move_out", "t_inc_scan"} \cup In(2, {"move_back"}), p \in Ranges(c.a)}
        \cup {<<"replace_copy_if", p[1], p[2], v, w>> : p \in Ranges(c.a), v \in Vals, w \in Vals}
        \cup UNION {{<<"psort_copy", p[1], p[2], m, m % 2>> : m \in 0..(p[2] - p[1] + 1)} : p \in Ranges(c.a)}
        \cup {<<"merge", p[1], p[2]>> : p \in {x \in Ranges(c.a) : IsSorted(Sub(c.a, x[1], x[2])) /\ IsSorted(c.b)}}
        \cup {<<"set_op", p[1], p[2], k>> : p \in {x \in Ranges(c.a) : IsSorted(Sub(c.a, x[1], x[2])) /\ IsSorted(c.b)}, k \in 0..3}
Step1(S) == IF Adv THEN S ELSE {}
MuActs(c) == IF SetA THEN {} ELSE
       {<<"fill", p[1], p[2], v>> : p \in Ranges(c.a), v \in Vals}
  \cup {<<op, p[1], p[2], v>> : op \in {"fill_n"}, p \in Ranges(c.a), v \in Vals}
  \cup {<<"replace_if", p[1], p[2], v, w>> : p \in Ranges(c.a), v \in Vals, w \in Vals}
  \cup {<<"replace", p[1], p[2], v, w>> : p \in Ranges(c.a), v \in Vals, w \in Vals}
  \cup In(2, {<<"reverse", p[1], p[2]>> : p \in Ranges(c.a)})
  \cup Step1(UNION {{<<"rotate", p[1], p[2], m>> : m \in p[1]..p[2]} : p \in Ranges(c.a)})
  \cup {<<op, f, Len(c.a), v>> : op \in {"remove", "remove_if"}, f \in 0..Len(c.a), v \in V0}
  \cup {<<"unique", f, Len(c.a)>> : f \in 0..Len(c.a)}
  \cup {<<"swap_ranges", p[1], p[2]>> : p \in {x \in Ranges(c.a) : x[2] - x[1] <= Len(c.b)}}
  \cup {<<"iter_swap", i, j>> : i \in 0..(Len(c.a) - 1), j \in 0..(Len(c.a) - 1)}
  \cup {<<"copy_in", f>> : f \in 0..(Len(c.a) - Len(c.b))}
  \cup UNION {{<<"copy_down", p[1], p[2], m>> : m \in 0..p[1]} : p \in Ranges(c.a)}
  \cup In(2, UNION {{<<"copy_up", p[1], p[2], m>> : m \in p[2]..Len(c.a)} : p \in Ranges(c.a)})
  \cup In(2, Step1({<<op, p[1], p[2]>> : op \in {"next_perm", "prev_perm"}, p \in Ranges(c.a)}))
  \cup In(2, Step1({<<op, p[1], p[2], v>> : op \in {"stable_part"}, p \in Ranges(c.a), v \in Vals}))
  \cup Step1({<<"partition", p[1], p[2], v>> : p \in Ranges(c.a), v \in Vals})
  \cup In(2, Step1(UNION {{<<"inplace_merge", p[1], p[2], m>> : m \in {x \in p[1]..p[2] : Sorted(Sub(c.a, p[1], x), Coarse) /\ Sorted(Sub(c.a, x, p[2]), Coarse)}} : p \in Ranges(c.a)}))
  \cup In(3, {<<"shuffle", p[1], p[2], 1>> : p \in Ranges(c.a)})
  \cup In(3, {<<op, p[1], p[2]>> : op \in {"sort", "sort_desc", "stable_sort", "sort_key", "make_heap", "is_heap"}, p \in Ranges(c.a)}
         \cup UNION {{<<op, p[1], p[2], m>> : op \in {"nth", "partial_sort"}, m \in p[1]..p[2]} : p \in Ranges(c.a)}
         \cup {<<"push_heap", p[1], p[2]>> : p \in {x \in Ranges(c.a) : x[1] < x[2] /\ Heap(Sub(c.a, x[1], x[2] - 1))}}
         \cup {<<"pop_heap", p[1], p[2]>> : p \in {x \in Ranges(c.a) : x[1] < x[2] /\ Heap(Sub(c.a, x[1], x[2]))}}
         \cup {<<"sort_heap", p[1], p[2]>> : p \in {x \in Ranges(c.a) : Heap(Sub(c.a, x[1], x[2]))}})
Seqs == SeqsUpTo(Vals, MaxLen)
SetActs(c) == {<<"seta">> \o q : q \in Seqs}
Acts(c) ==
  IF c.o # <<>> THEN {<<"clro">>} ELSE     \* what was put out is not looked at again
  CASE Group = "read"   -> SetActs(c) \cup RdActs(c) \cup {l \in OtActs(c) : l[1] \notin {"transform2", "merge", "set_op"}}
    [] Group = "pair"   -> (IF c.a = <<>> THEN {<<"seta">> \o q : q \in Seqs} \cup {<<"setb">> \o q : q \in Seqs} ELSE {}) \cup PrActs(c)
                           \cup {l \in OtActs(c) : l[1] \in {"transform2", "merge", "set_op"}}
                           \cup {l \in MuActs(c) : l[1] \in {"swap_ranges", "copy_in"}}
    [] Group = "mutate" -> SetActs(c) \cup {l \in MuActs(c) : l[1] \notin {"swap_ranges", "copy_in"}}
    [] OTHER -> SetActs(c) \cup RdActs(c)

Inv(c) == /\ (SetA => IsSorted(c.a)) /\ (SetO => IsSorted(c.o))
          /\ IsPerm(SortId(c.a), c.a) /\ IsSorted(SortId(c.a)) /\ Sorted(StableSort(c.a), Coarse) /\ IsPerm(StableSort(c.a), c.a)
Keeps == {"reverse", "rotate", "sort", "stable_sort", "sort_desc", "next_perm", "prev_perm", "stable_part", "partition", "nth",
          "partial_sort", "make_heap", "push_heap", "pop_heap", "sort_heap", "inplace_merge", "sort_key", "iter_swap", "shuffle"}
Step(c, op, a, r, d) ==
  /\ op \in ReadOps \cup PairOps \cup {"bounds", "is_heap"} => d = c
  /\ op \in OutOps \cup Out2Ops => d.a = c.a /\ d.b = c.b
  /\ op \in Keeps => IsPerm(d.a, c.a)
  /\ op = "rotate" => Do(d, "rotate", <<a[1], a[2], r[1]>>) = {<<c, <<a[3]>>>>}
  /\ op = "next_perm" /\ r = <<1>> => PrevPerm(Sub(d.a, a[1], a[2]))[1] = Sub(c.a, a[1], a[2])
=============================================================================
