------------------------------- MODULE LTIMC -------------------------------
(* Laws of the realisations on every short input history: the internal form  *)
(* is the difference equation of the transfer function, responses superpose, *)
(* a late start only shifts the response, and a constant input has the DC    *)
(* gain as equilibrium.  Histories are replayed in the real classes.         *)
EXTENDS LTI, Json
CONSTANTS Vals, LMax
Sys == << Discrete(<<"1", "0.5">>, <<"2", "-1">>), Discrete(<<"1", "2", "-1">>, <<"1", "0.5">>), Discrete(<<"1">>, <<"1", "-0.5", "0.25", "0.5">>),
          Discrete(<<"0.5", "0.25", "1">>, <<"1">>), Continuous(<<"0", "2">>, <<"1", "1">>, "0.5"), Continuous(<<"1", "0", "3">>, <<"2", "1", "4">>, "0.25"),
          Continuous(<<"2", "1">>, <<"1", "3">>, "0.125"), [Continuous(<<"0", "1", "1", "2">>, <<"1", "2", "2", "1">>, "0.25") EXCEPT !.im = "simp"],
          [Continuous(<<"0", "0", "1">>, <<"1", "1", "1">>, "0.5") EXCEPT !.im = "rect"] >>
N == Len(Sys)
VARIABLES so, yo, s1, s2, s3, s4, u1, y1, y2, y3, y4, hist
vars == <<so, yo, s1, s2, s3, s4, u1, y1, y2, y3, y4, hist>>
Run(S, u) == [j \in 1..N |-> StepL(S[j], u)]
Ss(r) == [j \in 1..N |-> r[j].s]
Ys(r) == [j \in 1..N |-> r[j].y]
Obs(S) == [j \in 1..N |-> IF S[j].kind = "c" THEN Observable(S[j]) ELSE S[j]]
Init == so = Obs(Sys) /\ yo = <<>> /\ s1 = Sys /\ s2 = Sys /\ s3 = Sys /\ s4 = Sys /\ u1 = <<>> /\ y1 = <<>> /\ y2 = <<>> /\ y3 = <<>> /\ y4 = <<>> /\ hist = <<>>
\* s1: input u; s2: a fixed other input w; s3: u + 2 w; s4: u one sample late
W(k) == IF (k % 2) = 0 THEN "1" ELSE "-3"
Next == /\ Len(hist) < LMax
        /\ \E u \in Vals :
             LET k == Len(u1) r1 == Run(s1, u) r2 == Run(s2, W(k)) r3 == Run(s3, NAdd(u, NMul("2", W(k)))) r4 == Run(s4, IF k = 0 THEN "0" ELSE u1[k])
             IN /\ LET ro == Run(so, u) IN so' = Ss(ro) /\ yo' = Append(yo, Ys(ro))
                /\ s1' = Ss(r1) /\ s2' = Ss(r2) /\ s3' = Ss(r3) /\ s4' = Ss(r4)
                /\ y1' = Append(y1, Ys(r1)) /\ y2' = Append(y2, Ys(r2)) /\ y3' = Append(y3, Ys(r3)) /\ y4' = Append(y4, Ys(r4))
                /\ u1' = Append(u1, u) /\ hist' = Append(hist, "u " \o u)
Spec == Init /\ [][Next]_vars
Tol == NPow2(-90)
Superposition == \A k \in 1..Len(u1) : \A j \in 1..N : NNear(y3[k][j], NAdd(y1[k][j], NMul("2", y2[k][j])), Tol)
TimeInvariance == \A k \in 2..Len(u1) : \A j \in 1..N : NNear(y4[k][j], y1[k - 1][j], Tol)
SameOutputs == \A k \in 1..Len(u1) : \A j \in 1..N : NNear(yo[k][j], y1[k][j], Tol)
UAt(k) == IF k < 1 THEN "0" ELSE u1[k]
YAt(k, j) == IF k < 1 THEN "0" ELSE y1[k][j]
DifferenceEquation == Len(u1) > 0 => \A j \in 1..N : LET k == Len(u1) s == Sys[j] IN s.kind = "d" =>
     NNear(y1[k][j], NSub(NSum([q \in 1..s.n |-> NMul(s.b[q], UAt(k + 1 - q))]), NSum([q \in 1..s.n |-> NMul(s.a[q], YAt(k - q, j))])), Tol)
\* x_n = u/a_n, the other states 0, no derivative: stays there, with output b_n/a_n u
Equilibrium == \A j \in 1..N : Sys[j].kind = "c" =>
     LET s == Sys[j]
         eq == [s EXCEPT !.st = [q \in 1..s.n |-> [Z0(1)[1] EXCEPT !.x = IF q = s.n THEN NDiv("1", s.a[s.n]) ELSE "0"]]]
         r == StepL(eq, "1")
     IN NNear(r.y, NDiv(s.b[s.n], s.a[s.n]), Tol) /\ \A q \in 1..s.n : NNear(r.s.st[q].x, eq.st[q].x, Tol)
Emit == Len(hist) = LMax => PrintT("HIST " \o ToJson(hist))
=============================================================================
