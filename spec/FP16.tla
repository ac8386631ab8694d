-------------------------------- MODULE FP16 --------------------------------
(***************************************************************************)
(* Signed fixed point Q16.16.  A value is carried as its raw integer (value *)
(* times 65536), a Num string.  -2147483648 is the overflow marker.         *)
(***************************************************************************)
EXTENDS Num, TLC

Marker == "-2147483648"
MaxRaw == "2147483647"
One    == "65536"
Rep(r) == NLe("-2147483647", r) /\ NLe(r, MaxRaw)           \* representable, not the marker
Real(r) == NDiv(r, One)
Turn1 == NMul(NMul("2", NPi), One)                          \* 2 pi, in LSB

\* nearest integer, ties away from zero
RHA(a) == IF NSgn(a) >= 0 THEN NFloor(NAdd(a, "1/2")) ELSE NNeg(NFloor(NAdd(NNeg(a), "1/2")))
Fit(r) == IF Rep(r) THEN NCanon(r) ELSE Marker

-----------------------------------------------------------------------------
(* arithmetic: the nearest representable value of the exact result, or the marker *)
Add(x, y) == Fit(NAdd(x, y))
Sub(x, y) == Fit(NSub(x, y))
Mul(x, y) == Fit(RHA(NDiv(NMul(x, y), One)))
Div(x, y) == IF NEq(y, "0") THEN Marker ELSE Fit(RHA(NDiv(NMul(x, One), y)))
Neg(x)    == NNeg(x)
Abs(x)    == NAbs(x)

(* conversions *)
FromInt(n)   == NMul(NOf(n), One)
FromReal(v)  == RHA(NMul(v, One))
ToInt(x)     == RHA(Real(x))
Floor(x)     == NMul(NFloor(Real(x)), One)
Ceil(x)      == Fit(NNeg(NMul(NFloor(NNeg(Real(x))), One)))
Rounding(x)  == Fit(NMul(RHA(Real(x)), One))
Pow10 == <<"1", "10", "100", "1000", "10000", "100000">>
PadTo(s, n) == LET zeros == <<"", "0", "00", "000", "0000", "00000">> IN zeros[n - Len(s) + 1] \o s
Text(x, d) ==
  LET dd == IF d < 0 THEN 0 ELSE IF d > 5 THEN 5 ELSE d
      sc == Pow10[dd + 1]
      m  == RHA(NMul(NAbs(Real(x)), sc))
      ip == NFloor(NDiv(m, sc))
      fr == NSub(m, NMul(ip, sc))
  IN IF NEq(x, Marker) THEN "overflow"
     ELSE (IF NSgn(x) < 0 THEN "-" ELSE "") \o ip \o (IF dd = 0 THEN "" ELSE "." \o PadTo(fr, dd))

-----------------------------------------------------------------------------
(* Elementary functions.  OK_f(x, r): r is an admissible raw result for raw x. *)
Near(r, v, tol) == ~NEq(r, Marker) /\ NLe(NAbs(NSub(r, NMul(v, One))), tol)     \* tol in LSB
ExpMax == "681391"                                          \* ln(32768)

OK_sqrt(x, r) == IF NSgn(x) < 0 THEN NEq(r, Marker) ELSE Near(r, NSqrt(Real(x)), "51/100")

TolExp(x) == IF NSgn(x) > 0 THEN NAdd("4", NMul("35/1000000", NMul(NExp(Real(x)), One))) ELSE "40"
OK_exp(x, r) == IF NLe(ExpMax, x) THEN NEq(r, MaxRaw)
                ELSE IF NLe(x, NNeg(ExpMax)) THEN NEq(r, "0")
                ELSE Near(r, NExp(Real(x)), TolExp(x))
TolLog(x) == NAdd("3", NDiv("700", x))                      \* half an LSB of a tiny argument weighs more
OK_log(x, r) == IF NSgn(x) <= 0 THEN NEq(r, Marker) ELSE Near(r, NLn(Real(x)), TolLog(x))
OK_log2(x, r) == IF NSgn(x) <= 0 THEN NEq(r, Marker)
                 ELSE Near(r, NDiv(NLn(Real(x)), NLn("2")), "3")

\* angles: r is congruent to x modulo a full turn, up to slack LSB per removed turn
Turns(x, r, turn) == RHA(NDiv(NSub(x, r), turn))
Congruent(x, r, turn, slack, base) ==
  LET k == Turns(x, r, turn) IN NLe(NAbs(NSub(NSub(x, r), NMul(k, turn))), NAdd(base, NMul(slack, NAbs(k))))
PiRaw == NMul(NPi, One)
OK_wrapToPi(x, r) == NLe(NAbs(r), NAdd(PiRaw, "1")) /\ Congruent(x, r, Turn1, "1/5", "0")
OK_wrapTo180(x, r) == NLe(NAbs(r), "11796480") /\ NIsInt(NDiv(NSub(x, r), "23592960"))
DegOf(r) == NDiv(NMul(r, "180"), NPi)
RadOf(r) == NDiv(NMul(r, NPi), "180")
OK_radToDeg(x, r) == NLe(NAbs(r), "11796600") /\ Congruent(x, RadOf(r), Turn1, "1/5", "1/2")
\* pi/180 itself is only known to one LSB: 2e-4 relative
OK_degToRad(x, r) == /\ NLe(NAbs(r), NAdd(PiRaw, "40"))
                     /\ \E s \in {"-1", "0", "1"} :
                          LET w0 == NSub(x, NMul("23592960", RHA(NDiv(x, "23592960"))))
                              w  == NAdd(w0, NMul(s, "23592960"))
                          IN /\ NLe(NAbs(w), "11796480")
                             /\ NLe(NAbs(NSub(r, RadOf(w))), NAdd("1", NMul("2/10000", NAbs(RadOf(w)))))
TurnErr(x) == NDiv(NAbs(x), NMul("5", Turn1))               \* 0.2 LSB per turn of phase error
TolTrig(x) == NAdd("4", TurnErr(x))
OK_sin(x, r) == Near(r, NSin(Real(x)), TolTrig(x))
OK_cos(x, r) == Near(r, NCos(Real(x)), TolTrig(x))
OK_tan(x, r) ==
  LET s == NMul(NSin(Real(x)), One) c == NMul(NCos(Real(x)), One) t == TolTrig(x)
  IN IF NEq(r, Marker) THEN NLe(NAbs(c), NAdd("3", t))
     ELSE NLe(NAbs(NSub(NMul(Real(r), c), s)), NAdd(NMul(t, NAdd("1", NAbs(Real(r)))), "1"))
TolAt == "680"                                              \* 0.0104 rad
Atan2R(y, x) == IF NSgn(x) > 0 THEN NAtan(NDiv(y, x))
                ELSE IF NSgn(x) < 0 THEN IF NSgn(y) >= 0 THEN NAdd(NAtan(NDiv(y, x)), NPi) ELSE NSub(NAtan(NDiv(y, x)), NPi)
                ELSE IF NSgn(y) > 0 THEN NDiv(NPi, "2") ELSE IF NSgn(y) < 0 THEN NNeg(NDiv(NPi, "2")) ELSE "0"
OK_atan2(y, x, r) == Near(r, Atan2R(y, x), TolAt)
OK_atan(x, r) == Near(r, NAtan(Real(x)), TolAt)
AsinR(x) == IF NEq(NAbs(x), One) THEN NMul(NOf(NSgn(x)), NDiv(NPi, "2"))
            ELSE NAtan(NDiv(Real(x), NSqrt(NSub("1", NSq(Real(x))))))
OK_asin(x, r) == NLe(NAbs(x), One) => Near(r, AsinR(x), TolAt)
OK_acos(x, r) == NLe(NAbs(x), One) => Near(r, NSub(NDiv(NPi, "2"), AsinR(x)), TolAt)
Half(a) == NDiv(a, "2")
TolH(x) == NAdd("8", NMul("35/1000000", NMul(NExp(NAbs(Real(x))), One)))
OK_cosh(x, r) == IF NLe(ExpMax, NAbs(x)) THEN NEq(r, MaxRaw)
                 ELSE Near(r, Half(NAdd(NExp(Real(x)), NExp(NNeg(Real(x))))), TolH(x))
OK_sinh(x, r) == IF NLe(ExpMax, x) THEN NEq(r, MaxRaw)
                 ELSE IF NLe(x, NNeg(ExpMax)) THEN NEq(r, NNeg(MaxRaw))
                 ELSE Near(r, Half(NSub(NExp(Real(x)), NExp(NNeg(Real(x))))), TolH(x))
TanhR(v) == LET a == NExp(v) b == NExp(NNeg(v)) IN NDiv(NSub(a, b), NAdd(a, b))
OK_tanh(x, r) == IF NLe("720896", NAbs(x)) THEN NEq(r, NMul(NOf(NSgn(x)), One)) ELSE Near(r, TanhR(Real(x)), "4")

\* powers
IntPow(x, n) == NPow(Real(x), n)
TolPowI(x, n) == LET m == NMax("1", NAbs(Real(x))) IN NAdd("1", NMul(NDiv(NOf(n), "2"), NPow(m, n - 1)))
OK_powInt(x, n, r) ==
  LET v == IntPow(x, n) t == TolPowI(x, n) m == NAbs(NMul(v, One))
  IN IF NEq(r, Marker) THEN NLe("2147483647", NAdd(m, t))
     ELSE Near(r, v, t) /\ NLe(NSub(m, t), "2147483647")
\* x > 0, y not a positive integer, the result well inside the range
PowR(x, y) == NExp(NMul(Real(y), NLn(Real(x))))
OK_powReal(x, y, r) ==
  LET v == PowR(x, y)
      d == NAdd(NMul(NAbs(Real(y)), NAdd(TolLog(x), "1/2")), "1")        \* error of y*log(x), in LSB
      t == NAdd("41", NMul(NMul(v, One), NAdd(NMul("2", Real(d)), "35/1000000")))
      m == NMul(v, One)
  IN IF NLe(NSub(MaxRaw, t), m) THEN r \in {MaxRaw, Marker} \/ Near(r, v, t) ELSE Near(r, v, t)
=============================================================================
