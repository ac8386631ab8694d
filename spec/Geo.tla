-------------------------------- MODULE Geo ---------------------------------
(* Numeric helpers of the math module: angle wrapping, interpolation between   *)
(* two values, range mapping, point in polygon / circle.                        *)
EXTENDS Num, Integers, Sequences
U == NPow2(-23)
(* --- wrapping: period p, interval [lo, lo + p]; x inside stays, positive multiples map to the upper end --- *)
WrapTol(x, p) == NMul(NMul("4", U), NAdd(NAbs(x), p))
Congruent(x, y, p, tol) == LET q == NDiv(NSub(x, y), p)
                               n == NFloor(NAdd(q, "1/2"))
                           IN NLe(NAbs(NSub(NSub(x, y), NMul(n, p))), tol)
(* symmetric interval [-h, h] *)
WrapSymOK(x, h, y) == LET p == NMul("2", h) IN
  /\ IsNum(y) /\ NLe(NNeg(h), y) /\ NLe(y, h)
  /\ IF NLe(NAbs(x), h) THEN NEq(y, x)
     ELSE Congruent(x, y, p, WrapTol(x, p))
(* interval [0, p] *)
WrapPosOK(x, p, y) ==
  /\ IsNum(y) /\ NSgn(y) >= 0 /\ NLe(y, p)
  /\ IF NSgn(x) >= 0 /\ NLe(x, p) THEN NEq(y, x)
     ELSE Congruent(x, y, p, WrapTol(x, p))
(* exact multiples of the half / full period in degrees *)
Mult(x, p) == NIsInt(NDiv(x, p))
OddMult(x, p) == Mult(x, p) /\ ~Mult(x, NMul("2", p))
DegEndsOK(x, y180, y360) ==
  /\ (NSgn(x) /= 0 /\ Mult(x, "360") /\ NLe(NAbs(x), "36000")) => NEq(y360, IF NSgn(x) > 0 THEN "360" ELSE "0")
  /\ (OddMult(x, "180") /\ NLe(NAbs(x), "36000")) => NEq(y180, IF NSgn(x) > 0 THEN "180" ELSE "-180")
(* --- interpolation --- *)
LerpTol(a, b, t) == NAdd(NMul(NMul("4", U), NAdd(NMul(NAbs(a), NAdd("1", NAbs(t))), NMul(NAbs(t), NAbs(b)))), NPow2(-147))
LerpOK(a, b, t, y) ==
  /\ NSgn(t) = 0 => IsNum(y) /\ NEq(y, a)
  /\ NEq(t, "1") => IsNum(y) /\ NEq(y, b)
  /\ NEq(a, b) => IsNum(y) /\ NEq(y, a)
  /\ y /= "nan"
  /\ (NSgn(t) >= 0 /\ NLe(t, "1")) => IsNum(y) /\ NLe(NMin(a, b), y) /\ NLe(y, NMax(a, b))
  /\ IF IsNum(y) THEN NLe(NAbs(NSub(y, NAdd(a, NMul(t, NSub(b, a))))), LerpTol(a, b, t))
     ELSE NLe(NPow2(127), NMul(NAdd("1", NAbs(t)), NAdd(NAbs(a), NAbs(b))))
Cmp(x, y) == LET v(z) == IF z = "inf" THEN NPow2(200) ELSE IF z = "-inf" THEN NNeg(NPow2(200)) ELSE z IN NSgn(NSub(v(x), v(y)))
LerpMono(a, b, t1, t2, y1, y2) == y1 /= "nan" /\ y2 /= "nan" => Cmp(y2, y1) * Cmp(t2, t1) * Cmp(b, a) >= 0
(* --- ranges, xMin # xMax --- *)
Norm(x, lo, hi) == NDiv(NSub(x, lo), NSub(hi, lo))
NormTol(x, lo, hi) == NMul(NMul("4", U), NAbs(Norm(x, lo, hi)))
NormOK(x, lo, hi, y) == IsNum(y) /\ NLe(NAbs(NSub(y, Norm(x, lo, hi))), NAdd(NormTol(x, lo, hi), NPow2(-140)))
MapOK(x, lo, hi, a, b, y) ==
  LET n == Norm(x, lo, hi)
  IN IsNum(y) /\ NLe(NAbs(NSub(y, NAdd(a, NMul(NSub(b, a), n)))),
                     NAdd(NMul(NMul("8", U), NAdd(NMul(NAbs(NSub(b, a)), NAbs(n)), NAbs(a))), NPow2(-140)))
(* --- geometry; P a sequence of points <<x, y>> --- *)
Prev(P, k) == IF k = 1 THEN P[Len(P)] ELSE P[k - 1]
(* edge k runs from P[k] to its predecessor; where the vertical through x meets it *)
Crosses(P, k, x) == NLt(x, P[k][1]) /= NLt(x, Prev(P, k)[1])
EdgeY(P, k, x) == LET a == P[k] b == Prev(P, k) IN NAdd(a[2], NDiv(NMul(NSub(b[2], a[2]), NSub(x, a[1])), NSub(b[1], a[1])))
Above(P, x, y) == {k \in 1..Len(P) : Crosses(P, k, x) /\ NLt(y, EdgeY(P, k, x))}
Card(S) == LET RECURSIVE C(_) C(T) == IF T = {} THEN 0 ELSE 1 + C(T \ {CHOOSE z \in T : TRUE}) IN C(S)
Inside(P, x, y) == (Card(Above(P, x, y)) % 2) = 1
(* the point is so close to an edge that rounding may decide *)
Span(P) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN "0" ELSE NMax(S(k - 1), NMax(NAbs(P[k][1]), NAbs(P[k][2]))) IN S(Len(P))
OnEdge(P, k, x, y, tol) ==
  LET a == P[k] b == Prev(P, k)
      inx == NLe(NSub(NMin(a[1], b[1]), tol), x) /\ NLe(x, NAdd(NMax(a[1], b[1]), tol))
      iny == NLe(NSub(NMin(a[2], b[2]), tol), y) /\ NLe(y, NAdd(NMax(a[2], b[2]), tol))
      cr == NSub(NMul(NSub(b[1], a[1]), NSub(y, a[2])), NMul(NSub(b[2], a[2]), NSub(x, a[1])))
      len == NAdd(NAbs(NSub(b[1], a[1])), NAbs(NSub(b[2], a[2])))
  IN inx /\ iny /\ NLe(NAbs(cr), NMul(tol, len))
Undecided(P, x, y) == LET tol == NMul(NMul("32", U), NAdd(Span(P), NAdd(NAbs(x), NAbs(y)))) IN
  \/ \E k \in 1..Len(P) : OnEdge(P, k, x, y, tol)
  \/ \E k \in 1..Len(P) : Crosses(P, k, x) /\ NLe(NAbs(NSub(y, EdgeY(P, k, x))), NMul(tol, NAdd("1", NAbs(NDiv(NSub(P[k][2], Prev(P, k)[2]), NSub(P[k][1], Prev(P, k)[1]))))))
PolyOK(P, x, y, r) == Undecided(P, x, y) \/ r = Inside(P, x, y)
CircleOK(x, y, cx, cy, rad, r) ==
  LET d == NAdd(NSq(NSub(x, cx)), NSq(NSub(y, cy)))
      q == NSq(rad)
      tol == NAdd(NMul(NMul("8", U), NAdd(d, q)), NPow2(-120))
  IN IF NLe(d, NSub(q, tol)) THEN r ELSE IF NLt(NAdd(q, tol), d) THEN ~r ELSE TRUE
=============================================================================
