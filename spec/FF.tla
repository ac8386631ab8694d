--------------------------------- MODULE FF ---------------------------------
(* Fast elementary functions: what each of them approximates, where it is     *)
(* defined, how close the result has to be. Arguments and results are Num or   *)
(* one of "nan", "inf", "-inf".                                                 *)
EXTENDS Num, Integers, Sequences
FMax == NSub(NPow2(128), NPow2(104))           \* largest single precision number
FMin == NPow2(-126)                            \* smallest normal
Half == "1/2"
Ln2 == NLn("2")
Pi2 == NMul(NPi, Half)
Sgn(x) == NOf(NSgn(x))
(* functions built from the primitives so that small results keep relative accuracy *)
(* beyond +-300 the result overflows or vanishes, whatever it is *)
ExpR(z) == LET x == NMax("-300", NMin(z, "300"))
           IN IF NSgn(x) < 0 THEN NRnd(NDiv("1", NExp(NNeg(x)))) ELSE NExp(x)
CbrtR(x) == IF NSgn(x) = 0 THEN "0" ELSE NMul(Sgn(x), ExpR(NDiv(NLn(NAbs(x)), "3")))
SinhR(x) == IF NLt(NAbs(x), NPow2(-10))
            THEN LET q == NSq(x) IN NRnd(NMul(x, NAdd("1", NMul(NDiv(q, "6"), NAdd("1", NMul(NDiv(q, "20"), NAdd("1", NDiv(q, "42"))))))))
            ELSE NRnd(NMul(Half, NSub(ExpR(x), ExpR(NNeg(x)))))
CoshR(x) == NRnd(NMul(Half, NAdd(ExpR(x), ExpR(NNeg(x)))))
TanhR(x) == NRnd(NDiv(SinhR(x), CoshR(x)))
AsinhR(x) == LET z == NAbs(x) IN NMul(Sgn(x), NLn(NAdd(z, NSqrt(NAdd(NSq(z), "1")))))
AcoshR(x) == NLn(NAdd(x, NSqrt(NSub(NSq(x), "1"))))
AtanhR(x) == NMul(Half, NLn(NDiv(NAdd("1", x), NSub("1", x))))
AsinR(x) == IF NEq(NAbs(x), "1") THEN NMul(Sgn(x), Pi2) ELSE NAtan(NRnd(NDiv(x, NSqrt(NSub("1", NSq(x))))))
Log2R(x) == NRnd(NDiv(NLn(x), Ln2))
-----------------------------------------------------------------------------
Names == {"sqrt", "rSqrt", "cbrt", "rCbrt", "recip", "sin", "cos", "tan", "asin", "acos", "atan",
          "exp2", "exp", "exp10", "expm1", "log2", "log", "log10", "log1p",
          "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}
True(f, x) ==
  CASE f = "sqrt" -> NSqrt(x)
    [] f = "rSqrt" -> NRnd(NDiv("1", NSqrt(x)))
    [] f = "cbrt" -> CbrtR(x)
    [] f = "rCbrt" -> NRnd(NDiv("1", CbrtR(x)))
    [] f = "recip" -> NRnd(NDiv("1", x))
    [] f = "sin" -> NSin(x)
    [] f = "cos" -> NCos(x)
    [] f = "tan" -> NRnd(NDiv(NSin(x), NCos(x)))
    [] f = "asin" -> AsinR(x)
    [] f = "acos" -> NSub(Pi2, AsinR(x))
    [] f = "atan" -> NAtan(x)
    [] f = "exp2" -> ExpR(NMul(x, Ln2))
    [] f = "exp" -> ExpR(x)
    [] f = "exp10" -> ExpR(NMul(x, NLn("10")))
    [] f = "expm1" -> NSub(ExpR(x), "1")
    [] f = "log2" -> Log2R(x)
    [] f = "log" -> NLn(x)
    [] f = "log10" -> NRnd(NDiv(NLn(x), NLn("10")))
    [] f = "log1p" -> NLn(NAdd("1", x))
    [] f = "sinh" -> SinhR(x)
    [] f = "cosh" -> CoshR(x)
    [] f = "tanh" -> TanhR(x)
    [] f = "asinh" -> AsinhR(x)
    [] f = "acosh" -> AcoshR(x)
    [] f = "atanh" -> AtanhR(x)
(* stated error: absolute part, relative part *)
Small == NMul("3", NPow2(-149))
TrigErr(x) == NAdd("0.0011", NMul(NAbs(x), NPow2(-22)))
Tol(f, x, t) ==
  LET m == NAbs(t)
      E(a, r) == NAdd(a, NMul(r, m))
  IN CASE f = "sqrt" -> E(Small, "0.0000025")
       [] f = "rSqrt" -> E(Small, "0.0019")
       [] f = "cbrt" -> E(Small, "0.000035")
       [] f = "rCbrt" -> E(Small, "0.000035")
       [] f = "recip" -> E(Small, "0.003")
       [] f \in {"sin", "cos"} -> TrigErr(x)
       [] f = "tan" -> LET e == TrigErr(x) c == NAbs(NCos(x))
                       IN NDiv(NMul(e, NAdd("1", m)), NSub(c, e))
       [] f \in {"asin", "acos"} -> "0.013"
       [] f = "atan" -> "0.007"
       [] f \in {"exp2", "exp", "exp10"} -> E(NMul("1.00003", FMin), "0.00002")
       [] f = "expm1" -> NAdd("0.0000002", NMul("0.00002", ExpR(x)))
       [] f \in {"log2", "log", "log10"} -> IF NLt(x, FMin) THEN E("0.00003", "0") ELSE E("0.000000001", "0.0000006")
       [] f = "log1p" -> E("0.000001", "0.0000006")
       [] f = "sinh" -> E("0.000001", "0.00002")
       [] f = "cosh" -> E("0", "0.00002")
       [] f = "tanh" -> "0.0000004"
       [] f = "asinh" -> E("0.000005", "0.000001")
       [] f = "acosh" -> NAdd(E("0.000005", "0.000001"), NDiv("0.000005", NAdd("1", m)))
       [] f = "atanh" -> E("0.000001", "0.000001")
(* arguments for which the accuracy is stated *)
Domain(f, x) ==
  CASE f = "sqrt" -> NSgn(x) >= 0
    [] f \in {"rSqrt", "log2", "log", "log10"} -> NSgn(x) > 0
    [] f \in {"rCbrt", "recip"} -> NSgn(x) /= 0
    [] f \in {"sin", "cos"} -> NLe(NAbs(x), "100000")
    [] f = "tan" -> NLe(NAbs(x), "1000") /\ NLt(NMul("2", TrigErr(x)), NAbs(NCos(x)))
    [] f \in {"asin", "acos"} -> NLe(NAbs(x), "1")
    [] f = "log1p" -> NLt("-1", x)
    [] f \in {"sinh", "cosh"} -> NLe(NAbs(x), "88.7") \/ NLe("90", NAbs(x))
    [] f \in {"asinh"} -> NLe(NAbs(x), NPow2(126))
    [] f = "acosh" -> NLe("1", x) /\ NLe(x, NPow2(126))
    [] f = "atanh" -> NLt(NAbs(x), "1")
    [] OTHER -> TRUE
(* arguments outside the mathematical domain *)
Outside(f, x) ==
  CASE f \in {"sqrt", "rSqrt", "log2", "log", "log10"} -> NSgn(x) < 0
    [] f = "log1p" -> NLt(x, "-1")
    [] f \in {"asin", "acos", "atanh"} -> NLt("1", NAbs(x))
    [] f = "acosh" -> NLt(x, "1")
    [] OTHER -> FALSE
(* poles: set of admissible results *)
Pole(f, x) ==
  CASE f \in {"rSqrt", "rCbrt"} /\ NSgn(x) = 0 -> {"inf"}
    [] f = "recip" /\ NSgn(x) = 0 -> {"inf", "-inf"}
    [] f \in {"log2", "log", "log10"} /\ NSgn(x) = 0 -> {"-inf"}
    [] f = "log1p" /\ NEq(x, "-1") -> {"-inf"}
    [] f = "atanh" /\ NEq(x, "1") -> {"inf"}
    [] f = "atanh" /\ NEq(x, "-1") -> {"-inf"}
    [] OTHER -> {}
(* y is t within tol, with overflow to infinity *)
Within(t, tol, y) ==
  IF IsNum(y) THEN NLe(NAbs(NSub(y, t)), tol)
  ELSE \/ y = "inf" /\ NLt(FMax, NAdd(t, tol))
       \/ y = "-inf" /\ NLt(FMax, NAdd(NNeg(t), tol))
AtInf(f, x, y) ==
  LET p == x = "inf"
      Is(z) == IF IsNum(z) THEN IsNum(y) /\ NEq(y, z) ELSE y = z
  IN CASE f = "sqrt" -> y = IF p THEN "inf" ELSE "nan"
       [] f = "rSqrt" -> IF p THEN Is("0") ELSE y = "nan"
       [] f \in {"cbrt", "sinh", "asinh"} -> y = x
       [] f \in {"rCbrt", "recip"} -> Is("0")
       [] f \in {"sin", "cos", "tan", "asin", "acos", "atanh"} -> y = "nan"
       [] f = "atan" -> IsNum(y) /\ Within(IF p THEN Pi2 ELSE NNeg(Pi2), "0.007", y)
       [] f \in {"exp2", "exp", "exp10"} -> IF p THEN y = "inf" ELSE Is("0")
       [] f = "expm1" -> IF p THEN y = "inf" ELSE Is("-1")
       [] f \in {"log2", "log", "log10", "log1p", "acosh"} -> y = IF p THEN "inf" ELSE "nan"
       [] f = "cosh" -> y = "inf"
       [] f = "tanh" -> Is(IF p THEN "1" ELSE "-1")
(* the range of the function is never left *)
InRange(f, y) ==
  CASE f \in {"sin", "cos", "tanh"} -> NLe(NAbs(y), "1")
    [] f = "atan" -> NLe(NAbs(y), NMul("1.0000004", Pi2))
    [] f \in {"sqrt", "rSqrt", "exp2", "exp", "exp10"} -> NSgn(y) >= 0
    [] f = "cosh" -> NLe("0.99999", y)
    [] OTHER -> TRUE
FnOK(f, x, y) ==
  IF x = "nan" THEN y = "nan"
  ELSE IF ~IsNum(x) THEN AtInf(f, x, y)
  ELSE IF Pole(f, x) /= {} THEN y \in Pole(f, x)
  ELSE IF Outside(f, x) THEN y = "nan"
  ELSE /\ Domain(f, x) => LET t == True(f, x) IN Within(t, Tol(f, x, t), y)
       /\ IsNum(y) => InRange(f, y)
-----------------------------------------------------------------------------
(* two arguments *)
Hypot(x, y) == NSqrt(NAdd(NSq(x), NSq(y)))
HypotOK(x, y, r) ==
  IF x \in {"inf", "-inf"} \/ y \in {"inf", "-inf"} THEN r = "inf"
  ELSE IF x = "nan" \/ y = "nan" THEN r = "nan"
  ELSE IF NSgn(x) = 0 /\ NSgn(y) = 0 THEN IsNum(r) /\ NSgn(r) = 0
  ELSE LET k == NLog2F(NMax(NAbs(x), NAbs(y)))        \* scaled so that the root is near one
           t == NMul(NPow2(k), Hypot(NMul(x, NPow2(-k)), NMul(y, NPow2(-k))))
       IN Within(t, NAdd(Small, NMul("0.000004", t)), r)
(* the angle of the point (x, y); |x| above the smallest normal, or zero *)
Angle(y, x) == IF NSgn(x) = 0 THEN NMul(Sgn(y), Pi2)
               ELSE LET a == NAtan(NRnd(NDiv(y, x)))
                    IN IF NSgn(x) > 0 THEN a ELSE IF NSgn(y) < 0 THEN NSub(a, NPi) ELSE NAdd(a, NPi)
Atan2OK(y, x, r) ==
  (NSgn(x) = 0 /\ NSgn(y) = 0) \/ /\ IsNum(r)
                                   /\ NLe(NAbs(r), NMul("1.0000004", NPi))
                                   /\ \/ NLe(NAbs(NSub(r, Angle(y, x))), "0.007")
                                      \/ NSgn(y) = 0 /\ NSgn(x) < 0 /\ NLe(NAbs(NAdd(r, NPi)), "0.007")
(* b^e for b > 0, and at zero *)
PowOK(b, e, r) ==
  IF NSgn(b) = 0 THEN (NSgn(e) > 0 => IsNum(r) /\ NSgn(r) = 0) /\ (NSgn(e) < 0 => r = "inf")
  ELSE LET l == Log2R(b)
           q == NMul(e, l)
       IN IF NLe("129", q) THEN r = "inf"
          ELSE IF NLe(q, "-127") THEN IsNum(r) /\ NSgn(r) >= 0 /\ NLe(r, FMin)
          ELSE LET t == ExpR(NMul(q, Ln2))
                   rel == NAdd("0.00002", NMul("0.000001", NAbs(q)))
               IN Within(t, NAdd(NMul("1.0002", FMin), NMul(rel, t)), r)
-----------------------------------------------------------------------------
(* named constants, as the nearest single precision number *)
Phi == NMul(Half, NAdd("1", NSqrt("5")))
EulerGamma == "0.57721566490153286060651209008240243"
ConstVal(c) ==
  CASE c = "e" -> NExp("1") [] c = "log2e" -> NDiv("1", Ln2) [] c = "log10e" -> NDiv("1", NLn("10")) [] c = "ln2" -> Ln2
    [] c = "ln10" -> NLn("10") [] c = "pi" -> NPi [] c = "inv_pi" -> NDiv("1", NPi) [] c = "inv_sqrtpi" -> NDiv("1", NSqrt(NPi))
    [] c = "sqrt2" -> NSqrt("2") [] c = "sqrt3" -> NSqrt("3") [] c = "inv_sqrt2" -> NDiv("1", NSqrt("2")) [] c = "inv_sqrt3" -> NDiv("1", NSqrt("3"))
    [] c = "egamma" -> EulerGamma [] c = "phi" -> Phi [] c = "twice_pi" -> NMul("2", NPi) [] c = "half_pi" -> Pi2 [] c = "quarter_pi" -> NMul(Half, Pi2)
    [] c = "radian" -> NDiv("180", NPi) [] c = "lnpi" -> NLn(NPi) [] c = "ln_sqrt_2pi" -> NMul(Half, NLn(NMul("2", NPi)))
    [] c = "two_inv_pi" -> NDiv("2", NPi) [] c = "two_inv_sqrtpi" -> NDiv("2", NSqrt(NPi)) [] c = "log10_2" -> NDiv(Ln2, NLn("10"))
ConstOK(c, v) == LET t == ConstVal(c) IN NLe(NAbs(NSub(v, t)), NMul(NAbs(t), NPow2(-24)))
=============================================================================
