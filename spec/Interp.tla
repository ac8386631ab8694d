------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* One-dimensional table interpolation (qlibs::interp1).  A table is two    *)
(* sequences xs (strictly increasing) and ys.  Every method is a piecewise  *)
(* function; Piece(m, xs, ys, j, x) is the piece on [xs[j], xs[j+1]], which *)
(* also extrapolates when j is the first or the last interval.              *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets
NEXTP == 0   PREVP == 1   NEARP == 2   LINEAR == 3   SINE == 4   CUBIC == 5   LAGRANGE == 6   CATMULL == 7   CONSTRAINED == 8
MinSize(m) == IF m \in {CUBIC, CATMULL, CONSTRAINED} THEN 4 ELSE 2
Dx(xs, j) == NSub(xs[j + 1], xs[j])
Slope(xs, ys, j) == NDiv(NSub(ys[j + 1], ys[j]), Dx(xs, j))
\* the intervals whose piece may be used at x: one, or the two that meet at a knot
Pieces(xs, x) == LET n == Len(xs) IN
  IF NLt(x, xs[1]) THEN {1} ELSE IF NLt(xs[n], x) THEN {n - 1}
  ELSE {j \in 1..n-1 : NLe(xs[j], x) /\ NLe(x, xs[j + 1])}

\* cubic Hermite piece from end values and slopes
HermiteP(x0, x1, y0, y1, m0, m1, x) ==
  LET h == NSub(x1, x0) t == NDiv(NSub(x, x0), h) t2 == NSq(t) t3 == NMul(t2, t)
      h01 == NSub(NMul("3", t2), NMul("2", t3))
  IN NAdd(NAdd(NMul(NSub("1", h01), y0), NMul(h01, y1)),
          NMul(h, NAdd(NMul(NAdd(NSub(t3, NMul("2", t2)), t), m0), NMul(NSub(t3, t2), m1))))
\* slopes at knot k
BackSlope(xs, ys, k) == Slope(xs, ys, IF k = 1 THEN 1 ELSE k - 1)
CatmullSlope(xs, ys, k) == IF k = 1 THEN Slope(xs, ys, 1) ELSE IF k = Len(xs) THEN Slope(xs, ys, k - 1)
                           ELSE NDiv(NSub(ys[k + 1], ys[k - 1]), NSub(xs[k + 1], xs[k - 1]))
\* harmonic mean of the neighbouring slopes, zero at a turning point
InnerSlope(xs, ys, k) == LET a == Slope(xs, ys, k - 1) b == Slope(xs, ys, k) IN
  IF NLe(NMul(a, b), "0") THEN "0" ELSE NDiv("2", NAdd(NDiv("1", a), NDiv("1", b)))
ConstrSlope(xs, ys, k) == LET n == Len(xs) IN
  IF k = 1 THEN NSub(NMul("3/2", Slope(xs, ys, 1)), NDiv(InnerSlope(xs, ys, 2), "2"))
  ELSE IF k = n THEN NSub(NMul("3/2", Slope(xs, ys, n - 1)), NDiv(InnerSlope(xs, ys, n - 1), "2"))
  ELSE InnerSlope(xs, ys, k)
SlopeOf(m, xs, ys, k) == CASE m = CUBIC -> BackSlope(xs, ys, k) [] m = CATMULL -> CatmullSlope(xs, ys, k) [] m = CONSTRAINED -> ConstrSlope(xs, ys, k)
\* Lagrange polynomial through all points
RECURSIVE LTerm(_, _, _, _), LSum(_, _, _, _), LAbs(_, _, _, _)
LTerm(xs, k, x, j) == IF j = 0 THEN "1" ELSE IF j = k THEN LTerm(xs, k, x, j - 1)
                      ELSE NMul(LTerm(xs, k, x, j - 1), NDiv(NSub(x, xs[j]), NSub(xs[k], xs[j])))
LSum(xs, ys, x, k) == IF k = 0 THEN "0" ELSE NAdd(LSum(xs, ys, x, k - 1), NMul(ys[k], LTerm(xs, k, x, Len(xs))))
LAbs(xs, ys, x, k) == IF k = 0 THEN "0" ELSE NAdd(LAbs(xs, ys, x, k - 1), NAbs(NMul(ys[k], LTerm(xs, k, x, Len(xs)))))
Lin(xs, ys, j, x) == NAdd(ys[j], NMul(Slope(xs, ys, j), NSub(x, xs[j])))
Outside(xs, x) == NLt(x, xs[1]) \/ NLt(xs[Len(xs)], x)
Piece(m, xs, ys, j, x) ==
  CASE m = LINEAR -> Lin(xs, ys, j, x)
    [] m = SINE -> NAdd(ys[j], NMul(NDiv(NSub("1", NCos(NDiv(NMul(NPi, NSub(x, xs[j])), Dx(xs, j)))), "2"), NSub(ys[j + 1], ys[j])))
    [] m = LAGRANGE -> IF Outside(xs, x) THEN Lin(xs, ys, j, x) ELSE LSum(xs, ys, x, Len(xs))
    [] OTHER -> HermiteP(xs[j], xs[j + 1], ys[j], ys[j + 1], SlopeOf(m, xs, ys, j), SlopeOf(m, xs, ys, j + 1), x)
\* bound on the rounding error of the binary32 evaluation
Eps == NPow2(-23)
PieceTol(m, xs, ys, j, x) ==
  LET y0 == NAbs(ys[j]) y1 == NAbs(ys[j + 1]) h == Dx(xs, j) t == NAbs(NDiv(NSub(x, xs[j]), h))
      t3 == NMax("1", NMul(t, NMul(t, t))) d == NAbs(NSub(ys[j + 1], ys[j]))
  IN CASE m = LINEAR -> NMul(NMul("8", Eps), NAdd(NAdd(y0, y1), NMul(d, NMax("1", t))))
       [] m = SINE -> NAdd(NMul("0.0012", d), NMul(NMul("8", Eps), NAdd(y0, y1)))
       [] m = LAGRANGE -> IF Outside(xs, x) THEN NMul(NMul("8", Eps), NAdd(NAdd(y0, y1), NMul(d, NMax("1", t))))
                          ELSE NMul(NMul(NOf(6 * Len(xs)), Eps), LAbs(xs, ys, x, Len(xs)))
       [] m \in {CUBIC, CATMULL} ->
            NMul(NMul(NMul("32", Eps), t3), NAdd(NAdd(y0, y1), NMul(h, NAdd(NAbs(SlopeOf(m, xs, ys, j)), NAbs(SlopeOf(m, xs, ys, j + 1))))))
       [] m = CONSTRAINED ->   \* evaluated as a polynomial in x itself: conditioning depends on |x|/h
            LET big == NMax(NAbs(x), NMax(NAbs(xs[j]), NAbs(xs[j + 1])))
                f == NDiv(NAdd(NAdd(NAbs(SlopeOf(m, xs, ys, j)), NAbs(SlopeOf(m, xs, ys, j + 1))), NDiv(d, h)), h)
            IN NMul(NMul("64", Eps), NAdd(NMul(NAdd("1", NDiv(big, h)), NAdd(y0, y1)), NDiv(NMul(f, NMul(big, NSq(big))), h)))
\* admissible values of the neighbour methods
Neighbour(m, xs, ys, x) ==
  LET n == Len(xs) IN
  CASE m = NEXTP -> {IF NLe(xs[n], x) THEN ys[n] ELSE ys[CHOOSE k \in 1..n : NLt(x, xs[k]) /\ \A q \in 1..k-1 : NLe(xs[q], x)]}   \* at a knot: the one after it
    [] m = PREVP -> {IF NLe(x, xs[1]) THEN ys[1] ELSE ys[CHOOSE k \in 1..n : NLe(xs[k], x) /\ \A q \in k+1..n : NLt(x, xs[q])]}
    [] m = NEARP -> {ys[k] : k \in {k \in 1..n : \A q \in 1..n :             \* half way: the later one
                        /\ NLe(NAbs(NSub(x, xs[k])), NAdd(NAbs(NSub(x, xs[q])), NMul(Eps, NMax(NAbs(x), NAbs(xs[q])))))
                        /\ q > k => ~NEq(NAbs(NSub(x, xs[k])), NAbs(NSub(x, xs[q])))}}
Admissible(m, xs, ys, x, y) ==
  IF Len(xs) < MinSize(m) THEN y = "nan"
  ELSE /\ IsNum(y)
       /\ IF m <= NEARP THEN \E v \in Neighbour(m, xs, ys, x) : NEq(v, y)
          ELSE \E j \in Pieces(xs, x) : NNear(y, Piece(m, xs, ys, j, x), PieceTol(m, xs, ys, j, x))
=============================================================================
