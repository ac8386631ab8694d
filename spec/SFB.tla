-------------------------------- MODULE SFB ---------------------------------
(* Orthogonal polynomials and Bessel functions of the math module: true value *)
(* and how close the result has to be.                                          *)
EXTENDS SF
MaxAbs(a, b) == NMax(NAbs(a), NAbs(b))
(* --- three term recurrences; the state is <<p(j-1), p(j), largest |p| so far>> --- *)
RECURSIVE Rec(_, _, _, _, _, _)
(* Step(j, p1, p2) gives p(j) from p(j-1) = p1 and p(j-2) = p2 *)
Rec(Step(_, _, _), j, n, p2, p1, mx) ==
  IF j > n THEN <<p1, mx>> ELSE LET p == NRnd(Step(j, p1, p2)) IN Rec(Step, j + 1, n, p1, p, MaxAbs(mx, p))
HermStep(x, j, p1, p2) == NMul("2", NSub(NMul(x, p1), NMul(NOf(j - 1), p2)))
LagStep(al, x, j, p1, p2) == NDiv(NSub(NMul(NSub(NAdd(NOf(2 * j - 1), al), x), p1), NMul(NAdd(NOf(j - 1), al), p2)), NOf(j))
LegStep(m, x, j, p1, p2) == NDiv(NSub(NMul(NMul(NOf(2 * j - 1), x), p1), NMul(NOf(j + m - 1), p2)), NOf(j - m))
(* value and largest magnitude along the recurrence *)
HermV(n, x) == IF n = 0 THEN <<"1", "1">> ELSE Rec(LAMBDA j, a, b : HermStep(x, j, a, b), 2, n, "1", NMul("2", x), MaxAbs("1", NMul("2", x)))
LagV(n, m, x) == LET al == NOf(m) l1 == NSub(NAdd("1", al), x)
                 IN IF n = 0 THEN <<"1", "1">> ELSE Rec(LAMBDA j, a, b : LagStep(al, x, j, a, b), 2, n, "1", l1, MaxAbs("1", l1))
RECURSIVE OddFact(_)
OddFact(m) == IF m = 0 THEN "1" ELSE NMul(NOf(2 * m - 1), OddFact(m - 1))
LegV(n, m, x) ==           \* no phase factor
  IF m > n THEN <<"0", "0">>
  ELSE LET q == NSub("1", NSq(x))
           pm == NRnd(NMul(OddFact(m), IF m = 0 THEN "1" ELSE IF (m % 2) = 0 THEN NPow(q, m \div 2) ELSE NMul(NSqrt(q), NPow(q, m \div 2))))
           pm1 == NRnd(NMul(NMul(NOf(2 * m + 1), x), pm))
       IN IF n = m THEN <<pm, NAbs(pm)>> ELSE Rec(LAMBDA j, a, b : LegStep(m, x, j, a, b), m + 2, n, pm, pm1, MaxAbs(pm, pm1))
Big == NPow2(120)
U2 == NPow2(-22)
PolyOK(f, n, x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF f = "laguerre" /\ (x = "-inf" \/ (IsNum(x) /\ NSgn(x) < 0)) THEN y = "nan"
  ELSE IF ~IsNum(x) THEN TRUE
  ELSE IF f = "legendre" /\ NLt("1", NAbs(x)) THEN TRUE                \* not stated outside [-1, 1]
  ELSE LET v == CASE f = "hermite" -> HermV(n, x) [] f = "laguerre" -> LagV(n, 0, x) [] f = "legendre" -> LegV(n, 0, x)
       IN NLt(Big, v[2]) \/ Within(v[1], NMul(NMul(U2, NOf(4 * (n + 1))), v[2]), y)
AssocOK(f, n, m, x, y) ==
  IF f = "laguerre"
  THEN IF x = "nan" \/ x = "-inf" \/ (IsNum(x) /\ NSgn(x) < 0) THEN y = "nan"
       ELSE ~IsNum(x) \/ LET v == LagV(n, m, x) IN NLt(Big, v[2]) \/ Within(v[1], NMul(NMul(U2, NOf(6 * (n + 1))), v[2]), y)
  ELSE IF m > n THEN IsNum(y) /\ NSgn(y) = 0
  ELSE IF ~IsNum(x) THEN y = "nan"
  ELSE IF NLt("1", NAbs(x)) THEN y = "nan"
  ELSE LET v == LegV(n, m, x) IN NLt(Big, v[2]) \/ Within(v[1], NAdd(NPow2(-140), NMul(NAdd(NMul(U2, NOf(n + m + 1)), NMul("0.000006", NOf(m))), v[2])), y)
(* spherical harmonic without azimuth, as a function of the cosine *)
RECURSIVE FactRatio(_, _)
FactRatio(a, b) == IF a = b THEN "1" ELSE NDiv(FactRatio(a, b - 1), NOf(b))           \* a! / b!, a <= b
SphX(l, m, c) == LET k == NSqrt(NMul(NDiv(NOf(2 * l + 1), NMul("4", NPi)), FactRatio(l - m, l + m)))
                     v == NRnd(NMul(k, LegV(l, m, c)[1]))
                 IN IF (m % 2) = 1 THEN NNeg(v) ELSE v
SphOK(l, m, th, y) ==
  IF th = "nan" THEN y = "nan"
  ELSE IF m > l THEN IsNum(y) /\ NSgn(y) = 0
  ELSE LET c == NRnd(NCos(th))
           e == TrigErr(th)
           t == SphX(l, m, c)
           D(z) == NAbs(NSub(SphX(l, m, NClamp(z, "-1", "1")), t))
           d == NAdd(D(NAdd(c, e)), NAdd(D(NSub(c, e)), NAdd(D(NAdd(c, NMul(Half, e))), D(NSub(c, NMul(Half, e))))))
       IN Within(t, NAdd(NMul("1.5", d), NMul("0.0003", NAdd("0.3", NAbs(t)))), y)
-----------------------------------------------------------------------------
(* --- Bessel functions --- *)
RECURSIVE BSer(_, _, _, _)
(* sum over k of q^k / (k! (nu+1)..(nu+k)) from term t = term(k) on *)
BSer(q, nu, k, t) == LET n == NRnd(NDiv(NMul(t, q), NMul(NOf(k + 1), NAdd(nu, NOf(k + 1)))))
                     IN IF k > 3 /\ NLe(NAbs(n), NPow2(-110)) THEN t ELSE NRnd(NAdd(t, BSer(q, nu, k + 1, n)))
LnX2(x) == NLn(NMul(Half, x))
(* (x/2)^nu / Gamma(nu+1); nu not a negative integer *)
BFac(nu, x) == IF NSgn(nu) >= 0 THEN ExpR(NSub(NMul(nu, LnX2(x)), LnGammaP(NAdd(nu, "1"))))
               ELSE NRnd(NDiv(ExpR(NMul(nu, LnX2(x))), Gamma(NAdd(nu, "1"))))
ISer(nu, x) == NRnd(NMul(BFac(nu, x), BSer(NMul("1/4", NSq(x)), nu, 0, "1")))
JSer(nu, x) == NRnd(NMul(BFac(nu, x), BSer(NMul("-1/4", NSq(x)), nu, 0, "1")))
(* Hankel's expansions: sums of the even and odd terms a_k / x^k, with sign changes (J, N) or all (K) *)
RECURSIVE HSum(_, _, _, _, _)
HSum(mu, x, k, t, alt) ==     \* <<P, Q>> for alt, <<P + Q, 0>> otherwise, from term k on
  LET n == NRnd(NDiv(NMul(t, NSub(mu, NOf((2 * k + 1) * (2 * k + 1)))), NMul(NOf(8 * (k + 1)), x)))
      stop == k > 60 \/ (k > 2 /\ NLe(NAbs(n), NPow2(-70))) \/ (NLe(mu, NOf((2 * k + 1) * (2 * k + 1))) /\ NLt(NAbs(t), NAbs(n)))
      r == IF stop THEN <<"0", "0">> ELSE HSum(mu, x, k + 1, n, alt)
      s == IF alt /\ (k % 4) \in {2, 3} THEN NNeg(t) ELSE t
  IN IF alt /\ (k % 2) = 1 THEN <<r[1], NRnd(NAdd(r[2], s))>> ELSE <<NRnd(NAdd(r[1], s)), r[2]>>
Hank(nu, x) == LET h == HSum(NMul("4", NSq(nu)), x, 0, "1", TRUE)
                   chi == NSub(x, NMul(NAdd(nu, Half), Pi2))
                   c == NCos(chi) s == NSin(chi) w == NSqrt(NRnd(NDiv("2", NMul(NPi, x))))
               IN <<NRnd(NMul(w, NSub(NMul(h[1], c), NMul(h[2], s)))), NRnd(NMul(w, NAdd(NMul(h[1], s), NMul(h[2], c))))>>
JV(nu, x) == IF NLe("60", x) /\ NLe(NSq(nu), NMul("4", x)) THEN Hank(nu, x)[1] ELSE JSer(nu, x)
(* second kind: order in [0, 2) by series or expansion, then upward recurrence *)
RECURSIVE Dig(_, _, _, _, _, _)
(* sum over k of (psi(k+1) + psi(n+k+1)) q^k / (k! (n+k)!), t the power term, h the sum of the two psi *)
Dig(q, n, k, t, h, u) ==
  LET nt == NRnd(NDiv(NMul(t, q), NOf((k + 1) * (n + k + 1))))
      nh == NRnd(NAdd(h, NAdd(NDiv("1", NOf(k + 1)), NDiv("1", NOf(n + k + 1)))))
  IN IF k > 3 /\ NLe(NAbs(nt), NPow2(-110)) THEN NRnd(NMul(t, h)) ELSE NRnd(NAdd(NMul(t, h), Dig(q, n, k + 1, nt, nh, u)))
Psi2(n) == NAdd(NMul("-2", EulerGamma), IF n = 1 THEN "1" ELSE "0")
NInt01(n, x) ==      \* n = 0, 1
  LET h == NMul(Half, x)
      j == JSer(NOf(n), x)
      d == NMul(NPow(h, n), Dig(NMul("-1", NSq(h)), n, 0, "1", Psi2(n), 0))
      p == IF n = 1 THEN NDiv("1", h) ELSE "0"
  IN NRnd(NDiv(NSub(NSub(NMul(NMul("2", LnX2(x)), j), p), d), NPi))
KInt01(n, x) ==
  LET h == NMul(Half, x)
      i == ISer(NOf(n), x)
      d == NMul(NPow(h, n), Dig(NSq(h), n, 0, "1", Psi2(n), 0))
  IN IF n = 0 THEN NRnd(NSub(NMul(Half, d), NMul(LnX2(x), i)))
     ELSE NRnd(NSub(NAdd(NDiv(Half, h), NMul(LnX2(x), i)), NMul(Half, d)))
NBase(mu, x) ==
  IF NLe("25", x) THEN Hank(mu, x)[2]
  ELSE IF NIsInt(mu) THEN NInt01(NInt(mu), x)
  ELSE NRnd(NDiv(NSub(NMul(JSer(mu, x), NCos(NMul(NPi, mu))), JSer(NNeg(mu), x)), SinPi(mu)))
KBase(mu, x) ==
  IF NLe("12", x) THEN NRnd(NMul(NMul(NSqrt(NRnd(NDiv(Pi2, x))), ExpR(NNeg(x))), HSum(NMul("4", NSq(mu)), x, 0, "1", FALSE)[1]))
  ELSE IF NIsInt(mu) THEN KInt01(NInt(mu), x)
  ELSE NRnd(NMul(Pi2, NDiv(NSub(ISer(NNeg(mu), x), ISer(mu, x)), SinPi(mu))))
RECURSIVE Up(_, _, _, _, _, _)
Up(a, b, nu, x, n, s) == IF n = 0 THEN a ELSE Up(b, NRnd(NAdd(NDiv(NMul(NMul("2", nu), b), x), NMul(s, a))), NAdd(nu, "1"), x, n - 1, s)
NV(nu, x) == LET mu == Frac(nu) n == NInt(NFloor(nu)) IN IF n = 0 THEN NBase(mu, x) ELSE Up(NBase(mu, x), NBase(NAdd(mu, "1"), x), NAdd(mu, "1"), x, n, "-1")
KV(nu, x) == LET mu == Frac(nu) n == NInt(NFloor(nu)) IN IF n = 0 THEN KBase(mu, x) ELSE Up(KBase(mu, x), KBase(NAdd(mu, "1"), x), NAdd(mu, "1"), x, n, "1")
(* --- tolerances --- *)
SerRegion(nu, x) == NLt(NSq(x), NMul("10", NAdd(nu, "1")))
(* relative error of the leading factor (x/2)^nu / Gamma(nu+1) *)
FacErr(nu, x) == NAdd("0.000004", NMul("0.0000006", NAdd(NAbs(NMul(nu, LnX2(x))), NAbs(LnGammaP(NAdd(nu, "1"))))))
Dist(nu) == LET f == Frac(nu) IN NMin(f, NSub("1", f))          \* distance to the nearest integer
RootW(x) == NSqrt(NRnd(NDiv("2", NMul(NPi, x))))
JTol(nu, x, t) == IF SerRegion(nu, x) THEN NAdd(NMul("1.01", FMin), NMul(FacErr(nu, x), ISer(nu, x)))
                  ELSE IF NLt("1000", x) THEN NMul("2", NMul(TrigErr(x), RootW(x)))
                  ELSE NAdd("0.000004", NMul(NAdd(NMul("0.0000001", x), NMul("0.00000002", NSq(x))), RootW(x)))
ITol(nu, x, t) == NMul(t, IF SerRegion(nu, x) THEN FacErr(nu, x) ELSE NAdd(NAdd("0.00001", NMul("0.000001", nu)), NMul("0.0000004", x)))
KTol(nu, x, t) == NAdd(NMul("1.01", FMin), NMul(t, IF NLe("2", x) THEN NAdd("0.00001", NMul("0.0000004", x))
                              ELSE IF NIsInt(nu) THEN "0.000006" ELSE NAdd("0.08", NDiv("0.000002", Dist(nu)))))
NTol(nu, x, t) == IF NLt("1000", x) THEN NMul("2", NMul(TrigErr(x), RootW(x)))
                  ELSE IF NLe("2", x) THEN NAdd(NMul("0.00002", NAbs(t)), NAdd("0.000004", NMul(NAdd(NMul("0.0000001", x), NMul("0.00000002", NSq(x))), RootW(x))))
                  ELSE IF NIsInt(nu) THEN NAdd(NMul("0.000004", NAbs(t)), "0.000002")
                  ELSE NAdd(NMul("0.016", NAbs(t)), NAdd("0.006", NDiv("0.000001", Dist(nu))))
(* arguments for which the accuracy is stated *)
Stated(f, nu, x) ==
  CASE f = "I" -> NLe(x, "87") /\ NLe(nu, "100")
    [] f = "J" -> NLe(nu, "100") /\ (NLe(x, "60") \/ NLe(NSq(nu), NMul("4", x))) /\ NLe(x, "20000")
    [] f = "K" -> NLe(nu, "60")
    [] f = "N" -> NLe(nu, "60") /\ NLe(x, "20000")
IsBad(nu, x) == nu = "nan" \/ x = "nan" \/ (IsNum(nu) /\ NSgn(nu) < 0) \/ (IsNum(x) /\ NSgn(x) < 0) \/ x = "-inf" \/ nu = "-inf"
AtZero(f, nu, y) == CASE f \in {"I", "J", "j"} -> IsNum(y) /\ NEq(y, IF NSgn(nu) = 0 THEN "1" ELSE "0")
                      [] f = "K" -> y = "inf"
                      [] f \in {"N", "n"} -> y = "-inf"
Sph(f) == f \in {"j", "n"}
BesOK(f, nu, x, y) ==
  IF IsBad(nu, x) THEN y = "nan"
  ELSE IF ~IsNum(nu) \/ ~IsNum(x) THEN TRUE
  ELSE IF NSgn(x) = 0 THEN AtZero(f, nu, y)
  ELSE IF f \in {"K"} /\ NLe("105", x) THEN IsNum(y) /\ NSgn(y) >= 0 /\ NLe(y, FMin)
  ELSE IF f = "I" /\ NLe("100", x) /\ NLe(nu, "10") THEN y = "inf"
  ELSE IF Sph(f)
  THEN LET v == NAdd(nu, Half) g == IF f = "j" THEN "J" ELSE "N"
       IN (Stated(g, v, x) /\ NLe(x, "1000")) =>
            LET w == NSqrt(NRnd(NDiv(Pi2, x)))
                b == IF f = "j" THEN JV(v, x) ELSE NV(v, x)
                e == IF f = "j" THEN JTol(v, x, b) ELSE NTol(v, x, b)
                t == NRnd(NMul(w, b))
            IN Within(t, NAdd(NMul("0.002", NAbs(t)), NMul(NMul("1.01", w), e)), y)
  ELSE Stated(f, nu, x) =>
         LET t == CASE f = "I" -> ISer(nu, x) [] f = "J" -> JV(nu, x) [] f = "K" -> KV(nu, x) [] f = "N" -> NV(nu, x)
             e == CASE f = "I" -> ITol(nu, x, t) [] f = "J" -> JTol(nu, x, t) [] f = "K" -> KTol(nu, x, t) [] f = "N" -> NTol(nu, x, t)
         IN Within(t, NAdd(NMul("1.01", FMin), e), y)
            \/ (f = "K" /\ NLe("86", x) /\ IsNum(y) /\ NSgn(y) >= 0 /\ NLe(y, t))    \* exp(-x) is next to underflow
=============================================================================
