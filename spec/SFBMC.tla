------------------------------- MODULE SFBMC --------------------------------
(* The reference polynomials are orthogonal-family polynomials (explicit       *)
(* coefficients, parity, ends) and the reference Bessel functions satisfy their *)
(* recurrences, Wronskians and closed forms.                                     *)
EXTENDS SFB, TLC, Json
CONSTANT N, NX
VARIABLES n, k
Init == n \in 0..N /\ k \in 0..NX
Next == UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_<<n, k>>
X == NSub(NDiv(NOf(2 * k), NOf(NX)), "1")             \* -1..1
P == NMul("6", NDiv(NOf(k), NOf(NX)))                 \* 0..6
EPS == NPow2(-70)
Eq(a, b) == NLe(NAbs(NSub(a, b)), NMul(EPS, NAdd("1", NAbs(b))))
RECURSIVE F(_)
F(i) == IF i <= 1 THEN "1" ELSE NMul(NOf(i), F(i - 1))
Bin(a, b) == NDiv(F(a), NMul(F(b), F(a - b)))
RECURSIVE SumK(_, _)
SumK(g(_), i) == IF i < 0 THEN "0" ELSE NAdd(g(i), SumK(g, i - 1))
Sg(i) == IF (i % 2) = 0 THEN "1" ELSE "-1"
Pw(a, i) == IF i = 0 THEN "1" ELSE NPow(a, i)
PolyLaws ==
  /\ Eq(HermV(n, X)[1], SumK(LAMBDA i : NDiv(NMul(NMul(Sg(i), F(n)), Pw(NMul("2", X), n - 2 * i)), NMul(F(i), F(n - 2 * i))), n \div 2))
  /\ \A m \in 0..3 : Eq(LagV(n, m, P)[1], SumK(LAMBDA i : NDiv(NMul(NMul(Sg(i), Bin(n + m, n - i)), Pw(P, i)), F(i)), n))
  /\ Eq(LegV(n, 0, X)[1], SumK(LAMBDA i : NMul(NDiv(NMul(NMul(Sg(i), F(2 * n - 2 * i)), Pw(X, n - 2 * i)), NMul(NMul(F(i), F(n - i)), F(n - 2 * i))), NPow2(-n)), n \div 2))
  /\ NEq(LegV(n, 0, "1")[1], "1")
  (* (1-x^2) P' = n (P(n-1) - x P(n)) and P(n,1) = sqrt(1-x^2) P' *)
  /\ n >= 1 => Eq(NMul(NSqrt(NSub("1", NSq(X))), LegV(n, 1, X)[1]), NMul(NOf(n), NSub(LegV(n - 1, 0, X)[1], NMul(X, LegV(n, 0, X)[1]))))
  /\ \A m \in 1..n : Eq(NMul(NSqrt(NSub("1", NSq(X))), LegV(n, m, X)[1]),
                        NSub(NMul(NOf(n + m - 1), LegV(n - 1, m - 1, X)[1]), NMul(NMul(NOf(n - m + 1), X), LegV(n, m - 1, X)[1])))
B == NAdd("1/10", NMul("26", NDiv(NOf(k), NOf(NX))))  \* 0.1..26.1, both methods of the second kind
Nu == NAdd(NOf(n \div 3), CASE (n % 3) = 0 -> "0" [] (n % 3) = 1 -> "1/2" [] (n % 3) = 2 -> "0.3")
Nu1 == NAdd(Nu, "1")
Small1(a, s) == NLe(NAbs(a), NMul(NPow2(-26), s))
Wron == LET j == JV(Nu, B) j1 == JV(Nu1, B) y == NV(Nu, B) y1 == NV(Nu1, B) i0 == ISer(Nu, B) i1 == ISer(Nu1, B) k0 == KV(Nu, B) k1 == KV(Nu1, B)
        IN /\ Small1(NSub(NSub(NMul(j1, y), NMul(j, y1)), NDiv("2", NMul(NPi, B))), NAdd("1", NMul(NAbs(j), NAbs(y1))))
           /\ Small1(NSub(NAdd(NMul(i0, k1), NMul(i1, k0)), NDiv("1", B)), NDiv("1", B))
RecLaws == /\ Small1(NSub(NAdd(JV(Nu, B), JV(NAdd(Nu, "2"), B)), NDiv(NMul(NMul("2", Nu1), JV(Nu1, B)), B)), "1")
           /\ LET a == ISer(Nu, B) IN Small1(NSub(NSub(a, ISer(NAdd(Nu, "2"), B)), NDiv(NMul(NMul("2", Nu1), ISer(Nu1, B)), B)), a)
HalfLaws == LET w == RootW(B) IN
  n = 0 => /\ Small1(NSub(JV(Half, B), NMul(w, NSin(B))), "1") /\ Small1(NAdd(NV(Half, B), NMul(w, NCos(B))), "1")
           /\ Small1(NSub(KV(Half, B), NMul(NMul(w, Pi2), ExpR(NNeg(B)))), ExpR(NNeg(B)))
           /\ LET x == NAdd("60", B) IN Small1(NSub(JSer("0", x), Hank("0", x)[1]), "1") /\ Small1(NSub(JSer("7", x), Hank("7", x)[1]), "1")
BesLaws == Wron /\ RecLaws /\ HalfLaws
SphLaws == \* normalised: (l, 0) at the pole is sqrt((2l+1)/4pi); addition theorem
  LET RECURSIVE S(_)
      S(m) == IF m < 0 THEN "0" ELSE NAdd(NMul(IF m = 0 THEN "1" ELSE "2", NSq(SphX(n, m, X))), S(m - 1))
  IN Eq(S(n), NDiv(NOf(2 * n + 1), NMul("4", NPi)))
Emit == PrintT("HIST " \o ToJson([n |-> n, k |-> k]))
=============================================================================
