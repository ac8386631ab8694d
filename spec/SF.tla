--------------------------------- MODULE SF ---------------------------------
(* Gamma and related functions, error function, exponential integral, zeta,   *)
(* elliptic integrals: the true value and how close the result has to be.       *)
(* Arguments and results are Num or one of "nan", "inf", "-inf".                *)
EXTENDS FF
RECURSIVE ProdUp(_, _)
ProdUp(x, n) == IF n = 0 THEN "1" ELSE NRnd(NMul(NAdd(x, NOf(n - 1)), ProdUp(x, n - 1)))
(* --- gamma, x > 0: Stirling's series after shifting to z >= 25 --- *)
StirlingC == <<"1/12", "-1/360", "1/1260", "-1/1680", "1/1188", "-691/360360", "1/156", "-3617/122400">>
StirlingS(z) == LET w == NRnd(NDiv("1", NSq(z)))
                    RECURSIVE S(_)
                    S(k) == IF k > Len(StirlingC) THEN "0" ELSE NRnd(NAdd(StirlingC[k], NMul(w, S(k + 1))))
                IN NRnd(NDiv(S(1), z))
LnSqrt2Pi == NMul(Half, NLn(NMul("2", NPi)))
LnGammaP(x) ==
  LET n == IF NLe("25", x) THEN 0 ELSE 25 - NInt(NFloor(x))
      z == NAdd(x, NOf(n))
  IN NRnd(NSub(NAdd(NAdd(NSub(NMul(NSub(z, Half), NLn(z)), z), LnSqrt2Pi), StirlingS(z)), NLn(ProdUp(x, n))))
Frac(x) == NSub(x, NFloor(x))
(* sin(pi x), small near the integers with full relative accuracy *)
SinPi(x) == LET f == Frac(x)
                g == IF NLe(f, Half) THEN f ELSE NSub("1", f)
                s == NSin(NMul(NPi, g))
            IN IF NEq(NMod(NFloor(x), "2"), "0") THEN s ELSE NNeg(s)
NonPosInt(x) == NSgn(x) <= 0 /\ NIsInt(x)
(* log |Gamma(x)| *)
LnGamma(x) == IF NSgn(x) > 0 THEN LnGammaP(x)
              ELSE NSub(NLn(NDiv(NPi, NAbs(SinPi(x)))), LnGammaP(NSub("1", x)))
GammaSign(x) == IF NSgn(x) > 0 THEN 1 ELSE NSgn(SinPi(x))
Gamma(x) == LET v == ExpR(LnGamma(x)) IN IF GammaSign(x) < 0 THEN NNeg(v) ELSE v
ReflErr(x) == NAdd("0.0125", NDiv("0.000001", NAbs(SinPi(x))))     \* relative error of the fast sine at pi x
GammaTol(x, t) ==
  LET m == NAbs(t)
  IN NAdd(NMul("1.01", FMin), NMul(m, IF NSgn(x) < 0 THEN NAdd(ReflErr(x), "0.0001") ELSE IF NLt(x, "12") THEN "0.000004" ELSE "0.00006"))
TGammaOK(x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF x = "inf" THEN y = "inf"
  ELSE IF x = "-inf" THEN y = "nan"
  ELSE IF NSgn(x) = 0 THEN y \in {"inf", "-inf"}
  ELSE IF NonPosInt(x) THEN y = "inf"
  ELSE IF NLt(NAbs(x), FMin) THEN y \in {"inf", "-inf"} /\ (NSgn(x) > 0 => y = "inf")
  ELSE IF NLt("200", NAbs(x)) THEN IF NSgn(x) > 0 THEN y = "inf" ELSE IsNum(y) /\ NLe(NAbs(y), FMin)
  ELSE IF NSgn(x) < 0 /\ NLe("0.5", ReflErr(x)) THEN y /= "nan"
  ELSE LET t == Gamma(x) IN Within(t, GammaTol(x, t), y)
LGammaTol(x, t) ==
  LET m == NMul("0.0000012", NAbs(t))
  IN NAdd("0.0000025", IF NSgn(x) > 0 THEN m
                       ELSE NAdd(NAdd(m, ReflErr(x)), NMul("0.000001", NMul(NAbs(x), NAdd("1", NAbs(NLn(NAdd("1", NAbs(x)))))))))
LGammaOK(x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF ~IsNum(x) THEN y = "inf"
  ELSE IF NonPosInt(x) THEN y = "inf"
  ELSE IF NLt(x, "0") /\ (NLt(NAbs(x), FMin) \/ NLe("0.5", ReflErr(x))) THEN y /= "nan"
  ELSE LET t == LnGamma(x) IN Within(t, LGammaTol(x, t), y) /\ ((NEq(x, "1") \/ NEq(x, "2")) => IsNum(y) /\ NSgn(y) = 0)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN "1" ELSE NMul(NOf(n), Fact(n - 1))
FactorialOK(x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF x = "inf" THEN y = "inf"
  ELSE IF x = "-inf" THEN y = "nan"
  ELSE IF NSgn(x) < 0 THEN y = "nan"
  ELSE IF NLe("35", x) THEN y = "inf"
  ELSE LET t == Fact(NInt(NFloor(x))) IN IsNum(y) /\ NLe(NAbs(NSub(y, t)), NMul(t, NPow2(-23)))
BetaOK(x, y, r) ==
  IF x = "nan" \/ y = "nan" THEN r = "nan"
  ELSE LET a == LnGammaP(x) b == LnGammaP(y) c == LnGammaP(NAdd(x, y))
           l == NSub(NAdd(a, b), c)
           rel == NAdd("0.00004", NMul("0.0000006", NAdd(NAdd(NAbs(a), NAbs(b)), NAbs(c))))
       IN NLe("0.2", rel) \/ Within(ExpR(l), NAdd(NMul("1.01", FMin), NMul(rel, ExpR(l))), r)
(* --- error function --- *)
RECURSIVE ErfS(_, _, _)
(* t = (-1)^k x^(2k+1) / k! *)
ErfS(q, k, t) == LET s == NRnd(NDiv(t, NOf(2 * k + 1)))
                 IN IF k > 8 /\ NLe(NAbs(t), NPow2(-90)) THEN s ELSE NRnd(NAdd(s, ErfS(q, k + 1, NRnd(NNeg(NDiv(NMul(t, q), NOf(k + 1)))))))
TwoOverSqrtPi == NDiv("2", NSqrt(NPi))
Erf(x) == IF NLe("6", NAbs(x)) THEN Sgn(x) ELSE NRnd(NMul(TwoOverSqrtPi, ErfS(NSq(x), 0, x)))
ErfOK(x, y, c) ==
  IF x = "nan" THEN y = "nan" /\ c = "nan"
  ELSE LET t == IF x = "inf" THEN "1" ELSE IF x = "-inf" THEN "-1" ELSE Erf(x)
       IN /\ IsNum(y) /\ IsNum(c) /\ NLe(NAbs(y), "1") /\ NSgn(c) >= 0 /\ NLe(c, "2")
          /\ NLe(NAbs(NSub(y, t)), "0.0000008") /\ NLe(NAbs(NSub(c, NSub("1", t))), "0.0000008")
(* --- exponential integral --- *)
RECURSIVE EiS(_, _, _)
EiS(x, k, t) == LET s == NRnd(NDiv(t, NOf(k)))           \* t = x^k / k!
                IN IF k > 4 /\ NLe(NAbs(t), NPow2(-150)) THEN s ELSE NRnd(NAdd(s, EiS(x, k + 1, NRnd(NDiv(NMul(t, x), NOf(k + 1))))))
RECURSIVE EiA(_, _, _)
EiA(x, k, t) == LET n == NRnd(NDiv(NMul(t, NOf(k)), x))
                IN IF NLe(NAbs(t), NAbs(n)) \/ NLe(NAbs(n), NPow2(-60)) THEN "0" ELSE NRnd(NAdd(n, EiA(x, k + 1, n)))
EiSer(x) == NAdd(NAdd(EulerGamma, NLn(NAbs(x))), EiS(x, 1, x))
EiAsy(x) == NRnd(NMul(NDiv(ExpR(x), x), NAdd("1", EiA(x, 1, "1"))))
Ei(x) == IF NLe(x, "-22") \/ NLe("45", x) THEN EiAsy(x) ELSE EiSer(x)
EiOK(x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF x = "inf" THEN y = "inf"
  ELSE IF x = "-inf" THEN IsNum(y) /\ NSgn(y) = 0
  ELSE IF NSgn(x) = 0 THEN y = "-inf"
  ELSE IF NLe("88.6", x) /\ NLe(x, "95") THEN y = "inf" \/ IsNum(y)
  ELSE IF NLt("95", x) THEN y = "inf"
  ELSE LET t == Ei(x) IN Within(t, NAdd(NMul("0.000008", NAbs(t)), IF NSgn(x) > 0 THEN "0.000002" ELSE NMul("1.01", FMin)), y)
(* --- zeta: Euler-Maclaurin with N = 12 for s > 0, reflection below --- *)
BernF == <<"1/12", "-1/720", "1/30240", "-1/1209600", "1/47900160", "-691/1307674368000", "1/74724249600", "-3617/10670622842880000">>
ZN == 12
PowN(n, e) == IF n = 1 THEN "1" ELSE ExpR(NMul(e, NLn(NOf(n))))
ZetaP(s) ==
  LET nz == PowN(ZN, NNeg(s))
      RECURSIVE A(_)
      A(n) == IF n = 0 THEN "0" ELSE NAdd(PowN(n, NNeg(s)), A(n - 1))
      RECURSIVE B(_, _)
      (* f = s (s+1) .. (s+2k-2) N^(-s-2k+1) *)
      B(k, f) == IF k > Len(BernF) THEN "0"
                 ELSE NRnd(NAdd(NMul(BernF[k], f), B(k + 1, NRnd(NDiv(NMul(NMul(f, NAdd(s, NOf(2 * k - 1))), NAdd(s, NOf(2 * k))), NOf(ZN * ZN))))))
  IN NRnd(NAdd(NAdd(A(ZN - 1), NAdd(NRnd(NDiv(NMul(NOf(ZN), nz), NSub(s, "1"))), NMul(Half, nz))), B(1, NRnd(NDiv(NMul(s, nz), NOf(ZN))))))
(* 2 (2 pi)^(s-1) Gamma(1-s) zeta(1-s) *)
ZetaRefl(s) == NRnd(NMul(NMul("2", ExpR(NAdd(NMul(NSub(s, "1"), NLn(NMul("2", NPi))), LnGammaP(NSub("1", s))))), ZetaP(NSub("1", s))))
Zeta(s) == IF NSgn(s) >= 0 THEN ZetaP(s) ELSE NRnd(NMul(SinPi(NMul(Half, s)), ZetaRefl(s)))
ZetaOK(s, y) ==
  IF s = "nan" THEN y = "nan"
  ELSE IF ~IsNum(s) THEN s = "inf" => IsNum(y) /\ NEq(y, "1")
  ELSE IF NEq(s, "1") THEN y = "inf"
  ELSE IF NLt("60", s) THEN IsNum(y) /\ NEq(y, "1")
  ELSE IF NLt(s, "-60") THEN TRUE
  ELSE LET rel == NAdd("0.000015", NDiv("0.0000004", NAbs(NSub(s, "1"))))
       IN NLe("0.2", rel)
          \/ IF NSgn(s) >= 0 THEN LET t == ZetaP(s) IN Within(t, NMul(rel, NAbs(t)), y)
             ELSE LET p == ZetaRefl(s) q == SinPi(NMul(Half, s))
                  IN Within(NMul(q, p), NMul(NAbs(p), NAdd(NMul("0.0128", NAbs(q)), NAdd("0.000001", NMul("0.0000008", NAbs(s))))), y)
-----------------------------------------------------------------------------
(* elliptic integrals in Carlson's symmetric form *)
Third(a) == NDiv(a, "3")
RCs(x, y) ==      \* x >= 0, y > 0
  LET d == NSub(y, x)
  IN IF NLe(NAbs(d), NMul(y, NPow2(-14)))
     THEN LET m == Third(NAdd(x, NMul("2", y))) s == NRnd(NDiv(NSub(y, m), m))
          IN NRnd(NDiv(NAdd("1", NMul(NSq(s), NAdd("3/10", NMul(s, NAdd("1/7", NMul(s, NAdd("3/8", NMul(s, "9/22")))))))), NSqrt(m)))
     ELSE IF NSgn(x) = 0 THEN NRnd(NDiv(Pi2, NSqrt(y)))
     ELSE IF NSgn(d) > 0 THEN LET r == NSqrt(d) IN NRnd(NDiv(NAtan(NRnd(NDiv(r, NSqrt(x)))), r))
     ELSE LET r == NSqrt(NNeg(d)) IN NRnd(NDiv(NLn(NRnd(NDiv(NAdd(NSqrt(x), r), NSqrt(y)))), r))
RECURSIVE RFn(_, _, _, _)
RFn(x, y, z, n) ==
  IF n = 0
  THEN LET m == NRnd(Third(NAdd(NAdd(x, y), z)))
           a == NRnd(NSub("1", NDiv(x, m))) b == NRnd(NSub("1", NDiv(y, m))) c == NNeg(NAdd(a, b))
           e2 == NSub(NMul(a, b), NSq(c)) e3 == NMul(NMul(a, b), c)
       IN NRnd(NDiv(NAdd("1", NAdd(NAdd(NMul("-1/10", e2), NMul("1/14", e3)), NAdd(NMul("1/24", NSq(e2)), NMul("-3/44", NMul(e2, e3))))), NSqrt(m)))
  ELSE LET rx == NSqrt(x) ry == NSqrt(y) rz == NSqrt(z)
           l == NAdd(NMul(rx, NAdd(ry, rz)), NMul(ry, rz))
           Q(v) == NRnd(NMul("1/4", NAdd(v, l)))
       IN RFn(Q(x), Q(y), Q(z), n - 1)
RFv(x, y, z) == RFn(x, y, z, 9)
RECURSIVE RJn(_, _, _, _, _, _)
RJn(x, y, z, p, n, w) ==
  IF n = 0
  THEN LET m == NRnd(NDiv(NAdd(NAdd(x, y), NAdd(z, NMul("2", p))), "5"))
           D(v) == NRnd(NSub("1", NDiv(v, m)))
           a == D(x) b == D(y) c == D(z) d == D(p)
           ea == NAdd(NMul(a, NAdd(b, c)), NMul(b, c)) eb == NMul(NMul(a, b), c) ec == NSq(d)
           e2 == NSub(ea, NMul("3", ec)) e3 == NAdd(eb, NMul(NMul("2", d), NSub(ea, ec)))
           s == NAdd("1", NAdd(NMul("-3/14", e2), NAdd(NMul("1/6", e3), NMul("9/88", NSq(e2)))))
       IN NRnd(NMul(w, NDiv(s, NMul(m, NSqrt(m)))))
  ELSE LET rx == NSqrt(x) ry == NSqrt(y) rz == NSqrt(z)
           l == NAdd(NMul(rx, NAdd(ry, rz)), NMul(ry, rz))
           a1 == NAdd(NMul(p, NAdd(NAdd(rx, ry), rz)), NMul(NMul(rx, ry), rz))
           be == NMul(p, NSq(NAdd(p, l)))
           Q(v) == NRnd(NMul("1/4", NAdd(v, l)))
       IN NRnd(NAdd(NMul(NMul("3", w), RCs(NRnd(NSq(a1)), NRnd(be))), RJn(Q(x), Q(y), Q(z), Q(p), n - 1, NMul(w, "1/4"))))
RJv(x, y, z, p) == RJn(x, y, z, p, 12, "1")
RDv(x, y, z) == RJv(x, y, z, z)
K1(k) == LET q == NSub("1", NSq(k)) IN RFv("0", q, "1")
K2(k) == LET q == NSub("1", NSq(k)) IN NSub(RFv("0", q, "1"), NMul(Third(NSq(k)), RDv("0", q, "1")))
K3(k, nu) == LET q == NSub("1", NSq(k)) IN NAdd(RFv("0", q, "1"), NMul(Third(nu), RJv("0", q, "1", NSub("1", nu))))
(* amplitude = n pi + rest, |rest| <= pi/2 *)
Turns(phi) == NFloor(NAdd(NDiv(phi, NPi), Half))
Inc(f, k, nu, phi) ==
  LET n == Turns(phi)
      r == NRnd(NSub(phi, NMul(n, NPi)))
      s == NRnd(NSin(r)) c2 == NRnd(NSq(NCos(r))) s2 == NRnd(NSq(s)) q == NRnd(NSub("1", NMul(NSq(k), s2)))
      s3 == NRnd(NMul(s, s2))
      first == NMul(s, RFv(c2, q, "1"))
      v == CASE f = 1 -> first
             [] f = 2 -> NSub(first, NMul(Third(NSq(k)), NMul(s3, RDv(c2, q, "1"))))
             [] f = 3 -> NAdd(first, NMul(Third(nu), NMul(s3, RJv(c2, q, "1", NSub("1", NMul(nu, s2))))))
      full == CASE f = 1 -> K1(k) [] f = 2 -> K2(k) [] f = 3 -> K3(k, nu)
  IN NRnd(IF NSgn(n) = 0 THEN v ELSE NAdd(v, NMul(NMul("2", n), full)))
IsNan(S) == \E v \in S : v = "nan"
BadK(k) == ~IsNum(k) \/ NLt("1", NAbs(k))
Comp1OK(k, y) == IF BadK(k) THEN y = "nan"
                 ELSE NEq(NAbs(k), "1") \/ LET t == K1(k) IN Within(t, NMul(t, NAdd("0.00001", NDiv("0.0000002", NSub("1", NSq(k))))), y)
Comp2OK(k, y) == IF BadK(k) THEN y = "nan"
                 ELSE IF NEq(NAbs(k), "1") THEN IsNum(y) /\ NEq(y, "1")
                 ELSE LET t == K2(k) IN Within(t, NMul(t, NAdd("0.00003", NDiv("0.0000002", NSub("1", NSq(k))))), y)
Comp3OK(k, nu, y) == IF nu = "nan" \/ BadK(k) THEN y = "nan"
                     ELSE IF NEq(nu, "1") THEN y = "inf"
                     ELSE (NLe(NAbs(k), "0.96") /\ NLe(NAbs(nu), "5") /\ NLe(nu, "0.95")) => LET t == K3(k, nu) IN Within(t, NMul(t, "0.003"), y)
IncOK(f, k, nu, phi, y) ==
  IF nu = "nan" \/ phi = "nan" \/ BadK(k) THEN y = "nan"
  ELSE (NLe(NAbs(k), "0.95") /\ IsNum(phi) /\ NLe(NAbs(phi), "20") /\ (f = 3 => (NLe(NAbs(nu), "5") /\ NLe(nu, "0.9") /\ NLe(NAbs(k), "0.9")))) =>
     LET t == Inc(f, k, nu, phi)
         rel == IF f = 3 THEN NAdd("0.013", NDiv("0.004", NSub("1", NMax("0", nu)))) ELSE "0.013"
         ab == IF f = 3 THEN NMul("0.002", NAdd("1", NAbs(nu))) ELSE "0.0025"
     IN Within(t, NAdd(ab, NMul(rel, NAbs(t))), y)
=============================================================================
