------------------------------- MODULE RMSMC -------------------------------
(* The estimate is never negative, never exceeds the largest magnitude seen, *)
(* equals |c| for a signal of constant magnitude, ignores the sign of the    *)
(* signal and scales with it.                                                *)
EXTENDS RMS, Json, Integers
CONSTANTS Vals, LMax
VARIABLES r, g, y, z, xs
vars == <<r, g, y, z, xs>>
Init == \E n \in {1, 2, 3} : r = Fresh(n) /\ g = Fresh(n) /\ y = "0" /\ z = "0" /\ xs = <<>>
Next == Len(xs) < LMax /\ \E x \in Vals :
          LET s == NMul("-3", x) IN
          /\ y' = NRnd(Estimate(r, x)) /\ r' = Next2(r, x, NRnd(Estimate(r, x)))
          /\ z' = NRnd(Estimate(g, s)) /\ g' = Next2(g, s, NRnd(Estimate(g, s)))
          /\ xs' = Append(xs, x)
Spec == Init /\ [][Next]_vars
Tol == NPow2(-80)
Mags == [k \in 1..Len(xs) |-> NAbs(xs[k])]
Bounded == xs # <<>> => NLe(NSub(NMinSeq(Mags), Tol), y) /\ NLe(y, NAdd(NMaxSeq(Mags), Tol))
Homogeneous == NNear(z, NMul("3", y), Tol)
=============================================================================
