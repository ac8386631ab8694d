-------------------------------- MODULE Mat ---------------------------------
(* qlibs::mat: fixed size matrices. A matrix is [r, c, e]: e holds the        *)
(* elements row by row as exact rationals.                                     *)
EXTENDS Num
M(r, c, e) == [r |-> r, c |-> c, e |-> e]
At(A, j, k) == A.e[(j - 1) * A.c + k]
Row(A, q) == ((q - 1) \div A.c) + 1
Col(A, q) == ((q - 1) % A.c) + 1
Build(r, c, F(_, _)) == M(r, c, [q \in 1..(r * c) |-> F(((q - 1) \div c) + 1, ((q - 1) % c) + 1)])
Map1(A, F(_)) == M(A.r, A.c, [q \in DOMAIN A.e |-> F(A.e[q])])
Map2(A, B, F(_, _)) == M(A.r, A.c, [q \in DOMAIN A.e |-> F(A.e[q], B.e[q])])
MAdd(A, B) == Map2(A, B, NAdd)
MSub(A, B) == Map2(A, B, NSub)
MNeg(A) == Map1(A, NNeg)
MScale(A, s) == LET F(x) == NMul(x, s) IN Map1(A, F)
MAddS(A, s) == LET F(x) == NAdd(x, s) IN Map1(A, F)
MTrans(A) == LET F(j, k) == At(A, k, j) IN Build(A.c, A.r, F)
RowV(A, j) == [k \in 1..A.c |-> At(A, j, k)]
ColV(A, k) == [j \in 1..A.r |-> At(A, j, k)]
MMul(A, B) == LET F(j, k) == NDot(RowV(A, j), ColV(B, k)) IN Build(A.r, B.c, F)
MAbs(A) == Map1(A, NAbs)
MId(n, v) == LET F(j, k) == IF j = k THEN v ELSE "0" IN Build(n, n, F)
MAll(r, c, v) == LET F(j, k) == v IN Build(r, c, F)
NormInf(A) == NMaxSeq([j \in 1..A.r |-> NSum([k \in 1..A.c |-> NAbs(At(A, j, k))])])
(* determinant and inverse by cofactors: exact *)
Minor(A, j, k) == LET F(p, q) == At(A, IF p < j THEN p ELSE p + 1, IF q < k THEN q ELSE q + 1) IN Build(A.r - 1, A.c - 1, F)
RECURSIVE Det(_)
Det(A) == IF A.r = 1 THEN A.e[1]
          ELSE NSum([k \in 1..A.c |-> IF NSgn(At(A, 1, k)) = 0 THEN "0"
                      ELSE NMul(IF (k % 2) = 1 THEN At(A, 1, k) ELSE NNeg(At(A, 1, k)), Det(Minor(A, 1, k)))])
Inv(A) == IF A.r = 1 THEN M(1, 1, <<NDiv("1", A.e[1])>>)
          ELSE LET d == Det(A)
                   F(j, k) == LET c == Det(Minor(A, k, j)) IN NDiv(IF ((j + k) % 2) = 0 THEN c ELSE NNeg(c), d)
               IN Build(A.r, A.c, F)
=============================================================================
