------------------------------ MODULE InterpMC ------------------------------
(* Laws of every method on all small tables: the knots are hit, pieces join,  *)
(* straight lines are reproduced, the constrained spline never overshoots.    *)
EXTENDS Interp, TLC, Json
Grids == { <<"0", "1", "2", "3">>, <<"-1", "0", "2", "5/2">> }
Y == {"-1", "0", "1", "3"}
VARIABLES xs, ys, k      \* k-th probing point is examined
vars == <<xs, ys, k>>
Init == xs \in Grids /\ ys \in [1..4 -> Y] /\ k = 0
Next == k < 24 /\ k' = k + 1 /\ UNCHANGED <<xs, ys>>
Spec == Init /\ [][Next]_vars
Probe == NAdd(NSub(xs[1], "1"), NMul(NDiv(NAdd(NSub(xs[4], xs[1]), "2"), "24"), NOf(k)))
Smooth == {LINEAR, SINE, CUBIC, LAGRANGE, CATMULL, CONSTRAINED}
Near(a, b) == NNear(a, b, NPow2(-80))
Knots == k = 0 => \A m \in Smooth : \A j \in 1..3 : Near(Piece(m, xs, ys, j, xs[j]), ys[j]) /\ Near(Piece(m, xs, ys, j, xs[j + 1]), ys[j + 1])
Straight == \A j \in 1..3 : Slope(xs, ys, j) = Slope(xs, ys, 1)
Lines == Straight => \A m \in Smooth \ {SINE} : \A j \in Pieces(xs, Probe) : Near(Piece(m, xs, ys, j, Probe), Lin(xs, ys, 1, Probe))
Between(v, a, b) == NLe(NMin(a, b), v) /\ NLe(v, NMax(a, b))
NoOvershoot == ~Outside(xs, Probe) => \A m \in {LINEAR, CONSTRAINED} : \A j \in Pieces(xs, Probe) : Between(Piece(m, xs, ys, j, Probe), ys[j], ys[j + 1])
Joined == \A m \in Smooth : \A j, q \in Pieces(xs, Probe) : Near(Piece(m, xs, ys, j, Probe), Piece(m, xs, ys, q, Probe))
Neighbours == \A m \in {NEXTP, PREVP, NEARP} : Neighbour(m, xs, ys, Probe) # {} /\ Neighbour(m, xs, ys, Probe) \subseteq {ys[j] : j \in 1..4}
Emit == k = 0 => PrintT("HIST " \o ToJson([x |-> xs, y |-> ys]))
=============================================================================
