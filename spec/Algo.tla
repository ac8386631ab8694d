-------------------------------- MODULE Algo --------------------------------
(* qlibs::algorithm on raw arrays: what each operation does to positions      *)
(* f..l (inclusive, here 1-based) of an array of keys.                         *)
EXTENDS Integers, Sequences, FiniteSets
Holds(p, thr, k) == CASE p = 0 -> k < thr [] p = 1 -> k = thr [] p = 2 -> k >= thr [] OTHER -> k % 2 = 0
(* strict weak orders: 0/1 ascending, 2 descending, 3 even before odd *)
Before(c, x, y) == CASE c \in {0, 1} -> x < y [] c = 2 -> x > y [] OTHER -> (x % 2) < (y % 2)
In(f, l, j) == f <= j /\ j <= l
Outside(a, b, f, l) == \A j \in DOMAIN a : ~In(f, l, j) => b[j] = a[j]
Occ(a, v) == Cardinality({j \in DOMAIN a : a[j] = v})
Permutation(a, b) == Len(a) = Len(b) /\ \A v \in {a[j] : j \in DOMAIN a} : Occ(a, v) = Occ(b, v)
Sorted(c, b, f, l) == \A j \in f..(l - 1) : ~Before(c, b[j + 1], b[j])
SortedOK(c, a, b, f, l) == Permutation(a, b) /\ Outside(a, b, f, l) /\ Sorted(c, b, f, l)
Reversed(a, f, l) == [j \in DOMAIN a |-> IF In(f, l, j) THEN a[f + l - j] ELSE a[j]]
(* right rotation by r, 0 <= r < Len(a) *)
Rotated(a, r) == [j \in DOMAIN a |-> a[1 + ((j - 1 + Len(a) - r) % Len(a))]]
Swapped(a, x, y) == [a EXCEPT ![x] = a[y], ![y] = a[x]]
Filled(a, v, f, l) == [j \in DOMAIN a |-> IF In(f, l, j) THEN v ELSE a[j]]
Replaced(a, P(_), v, f, l) == [j \in DOMAIN a |-> IF In(f, l, j) /\ P(a[j]) THEN v ELSE a[j]]
Matches(a, P(_), f, l) == {j \in f..l : P(a[j])}
First(S) == IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
=============================================================================
