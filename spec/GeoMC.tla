------------------------------- MODULE GeoMC --------------------------------
(* For every triangle on a grid and every point of a finer grid that is not    *)
(* on an edge, counting crossings above the point is the same as being on the   *)
(* same side of the three edges; for quadrilaterals, the same as counting        *)
(* crossings below, and the parity does not depend on the starting vertex.       *)
EXTENDS Geo, TLC, Json
CONSTANT G
VARIABLES a, b, c, q
Pts == {<<NOf(i), NOf(j)>> : i \in 0..G, j \in 0..G}
Fine == {<<NDiv(NOf(i), "2"), NDiv(NOf(j), "2")>> : i \in -1..(2 * G + 1), j \in -1..(2 * G + 1)}
Init == a = <<"0", "1">> /\ b \in Pts /\ c \in Pts /\ q \in Pts
Next == UNCHANGED <<a, b, c, q>>
Spec == Init /\ [][Next]_<<a, b, c, q>>
Cr(u, v, w) == NSgn(NSub(NMul(NSub(v[1], u[1]), NSub(w[2], u[2])), NMul(NSub(v[2], u[2]), NSub(w[1], u[1]))))
Tri == <<a, b, c>>
Quad == <<a, b, c, q>>
On(P, p) == \E k \in 1..Len(P) : OnEdge(P, k, p[1], p[2], "0")
TriOK == (q = a /\ Cr(a, b, c) /= 0) => \A p \in Fine : ~On(Tri, p) =>
            Inside(Tri, p[1], p[2]) = (Cr(a, b, p) = Cr(b, c, p) /\ Cr(b, c, p) = Cr(c, a, p))
Below(P, x, y) == {k \in 1..Len(P) : Crosses(P, k, x) /\ NLt(EdgeY(P, k, x), y)}
QuadOK == \A p \in Fine : ~On(Quad, p) =>
            /\ Inside(Quad, p[1], p[2]) = ((Card(Below(Quad, p[1], p[2])) % 2) = 1)
            /\ Inside(Quad, p[1], p[2]) = Inside(<<b, c, q, a>>, p[1], p[2])
            /\ Inside(Quad, p[1], p[2]) = Inside(<<q, c, b, a>>, p[1], p[2])
Emit == PrintT("HIST " \o ToJson([p |-> <<a, b, c, q>>]))
=============================================================================
