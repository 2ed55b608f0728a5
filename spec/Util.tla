-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all specifications.  Functions with a growing domain are used as maps. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(q) == {q[i] : i \in DOMAIN q}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the elements of q that satisfy T, in order
Keep(q, T(_)) == SelectSeq(q, T)
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
WithoutAll(q, X) == SelectSeq(q, LAMBDA y : y \notin X)
Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]
RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* first index whose element satisfies T, or 0
First(q, T(_)) == LET I == {i \in DOMAIN q : T(q[i])} IN IF I = {} THEN 0 ELSE MinOf(I)

\* Stable sort of q by an integer key
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})

RECURSIVE SortByF(_, _)
SortByF(q, K) ==
  IF Len(q) <= 1 THEN q
  ELSE LET m == MinOf({K[x] : x \in Range(q)})
           f == SelectSeq(q, LAMBDA x : K[x] = m)
           r == SelectSeq(q, LAMBDA x : K[x] # m)
       IN f \o SortByF(r, K)
SortBy(q, Key(_)) == SortByF(q, [x \in Range(q) |-> Key(x)])
=============================================================================
