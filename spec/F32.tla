-------------------------------- MODULE F32 ---------------------------------
(* Binary floating point numbers as the library's bit level functions see     *)
(* them, for any width: a number is <<s, e, f>> (sign, exponent field,        *)
(* fraction field), EB/FB bits wide. EB = 8, FB = 23 is IEEE binary32.         *)
(* The operators say what each function has to return in terms of values.      *)
EXTENDS Num
CONSTANTS EB, FB
P2(k) == 2^k
EMAX == P2(EB) - 1
BIAS == P2(EB - 1) - 1
Sx(x) == x[1]
Ex(x) == x[2]
Fx(x) == x[3]
Raw(x) == (Ex(x) * P2(FB)) + Fx(x)          \* magnitude bits
OfRaw(s, r) == <<s, r \div P2(FB), r % P2(FB)>>
RawInf == EMAX * P2(FB)
Inf(s) == OfRaw(s, RawInf)
Zero(s) == <<s, 0, 0>>
IsNaNF(x) == Ex(x) = EMAX /\ Fx(x) /= 0
IsInfF(x) == Ex(x) = EMAX /\ Fx(x) = 0
IsFin(x) == Ex(x) /= EMAX
IsZero(x) == Ex(x) = 0 /\ Fx(x) = 0
AnyNaN(y) == IsNaNF(y)
(* exact value of a finite number *)
Mag(x) == NMul(NOf(IF Ex(x) = 0 THEN Fx(x) ELSE Fx(x) + P2(FB)), NPow2((IF Ex(x) = 0 THEN 1 ELSE Ex(x)) - BIAS - FB))
Val(x) == IF Sx(x) = 1 THEN NNeg(Mag(x)) ELSE Mag(x)
(* nearest representable of the exact magnitude v with sign s, ties to even *)
Round(s, v) ==
  IF NSgn(v) = 0 THEN Zero(s)
  ELSE LET L == NLog2F(v)
           E == IF L < 1 - BIAS THEN 1 - BIAS ELSE L
       IN IF E > BIAS THEN Inf(s)
          ELSE LET q == NMul(v, NPow2(FB - E))
                   n == NFloor(q)
                   r == NSub(q, n)
                   up == NLt("1/2", r) \/ (NEq(r, "1/2") /\ (NInt(n) % 2) = 1)
                   k == NInt(n) + (IF up THEN 1 ELSE 0)
               IN OfRaw(s, ((E + BIAS - 1) * P2(FB)) + k)
RoundV(v, szero) == IF NSgn(v) = 0 THEN Zero(szero) ELSE Round(IF NSgn(v) < 0 THEN 1 ELSE 0, NAbs(v))
SameBits(y, x) == y = x
SameVal(y, x) == y = x \/ (IsZero(y) /\ IsZero(x))
Same(y, x) == y = x \/ (IsNaNF(y) /\ IsNaNF(x))            \* NaN payloads do not matter
-----------------------------------------------------------------------------
(* 0 zero, 1 subnormal, 2 normal, 3 infinite, 4 NaN *)
Class(x) == IF IsZero(x) THEN 0 ELSE IF Ex(x) = 0 THEN 1 ELSE IF Ex(x) < EMAX THEN 2 ELSE IF Fx(x) = 0 THEN 3 ELSE 4
CopySign(m, s) == <<Sx(s), Ex(m), Fx(m)>>
Abs(x) == <<0, Ex(x), Fx(x)>>
(* signum: value -1, 0, 1, or NaN *)
OneF == <<0, BIAS, 0>>
SignOK(x, y) == IF IsNaNF(x) THEN IsNaNF(y) ELSE IF IsZero(x) THEN IsZero(y) ELSE y = CopySign(OneF, x)
IntVal(x, r) == IF NSgn(r) = 0 THEN Zero(Sx(x)) ELSE RoundV(r, 0)
IsIntF(x) == NIsInt(Val(x))
Keeps(x) == ~IsFin(x) \/ IsIntF(x)         \* infinities, NaN and integers are returned as they are
Floor(x) == IF Keeps(x) THEN x ELSE IntVal(x, NFloor(Val(x)))
Ceil(x) == IF Keeps(x) THEN x ELSE IntVal(x, NNeg(NFloor(NNeg(Val(x)))))
Trunc(x) == IF Keeps(x) THEN x ELSE IntVal(x, NTrunc(Val(x)))
Nearest(x) == IF Keeps(x) THEN x
              ELSE LET m == NFloor(NAdd(Mag(x), "1/2")) IN IntVal(x, IF Sx(x) = 1 THEN NNeg(m) ELSE m)
Frac(x) == IF IsFin(x) THEN RoundV(NSub(Val(x), NTrunc(Val(x))), 0) ELSE x
(* the neighbour of x in the direction of y *)
Less(a, b) ==  \* value order on non NaN
  LET k(z) == IF IsZero(z) THEN 0 ELSE IF Sx(z) = 1 THEN -Raw(z) ELSE Raw(z) IN k(a) < k(b)
NextAfter(x, y) ==
  IF IsNaNF(x) \/ IsNaNF(y) THEN <<0, EMAX, 1>>
  ELSE IF ~Less(x, y) /\ ~Less(y, x) THEN y
  ELSE IF IsZero(x) THEN OfRaw(Sx(y), 1)
  ELSE IF Less(x, y) = (Sx(x) = 0) THEN OfRaw(Sx(x), Raw(x) + 1) ELSE OfRaw(Sx(x), Raw(x) - 1)
(* x = y * 2^p with |y| in [1/2, 1) *)
RexpOK(x, y, p) == IF ~IsFin(x) THEN TRUE
                   ELSE IF IsZero(x) THEN IsZero(y) /\ p = 0
                   ELSE IsFin(y) /\ NEq(Val(x), NMul(Val(y), NPow2(p))) /\ NLe("1/2", Mag(y)) /\ NLt(Mag(y), "1")
(* exponents beyond this decide the result, whatever x *)
CAP == P2(EB) + FB + 4
Ldexp(x, p) == IF ~IsFin(x) \/ IsZero(x) THEN x
               ELSE Round(Sx(x), NMul(Mag(x), NPow2(IF p > CAP THEN CAP ELSE IF p < -CAP THEN -CAP ELSE p)))
Midpoint(a, b) == RoundV(NMul(NAdd(Val(a), Val(b)), "1/2"), 0)
Diff(a, b) == RoundV(NSub(Val(a), Val(b)), 0)
IsEqual(a, b, tol) == LET d == Diff(a, b) IN Raw(Abs(d)) <= Raw(Abs(tol))
(* remainders: x minus an integer multiple of y, within the rounding of x and of the quotient *)
Cong(x, y, r, tol) == LET k == NFloor(NAdd(NDiv(NSub(Val(x), Val(r)), Val(y)), "1/2"))
                      IN NLe(NAbs(NSub(NSub(Val(x), Val(r)), NMul(k, Val(y)))), tol)
RemTol(x, y) == NAdd(NMul(NAdd(Mag(x), Mag(y)), NPow2(1 - FB)), NPow2(2 - BIAS - FB))
Small(x, y) == NLe(Mag(x), NMul(Mag(y), NPow2(FB - 3))) /\ NLe(Mag(x), NPow2(BIAS - 1))          \* quotient small enough to be exact to the unit
RemOK(x, y, r) == IF IsZero(y) THEN IsNaNF(r)
                  ELSE (IsFin(x) /\ IsFin(y) /\ Small(x, y)) =>
                       /\ IsFin(r) /\ (IsZero(r) \/ Sx(r) = Sx(x))
                       /\ NLe(Mag(r), NAdd(Mag(y), RemTol(x, y)))
                       /\ Cong(x, y, r, RemTol(x, y))
ModOK(x, y, r) == IF IsZero(y) THEN r = x \/ (IsNaNF(x) /\ IsNaNF(r))
                  ELSE (IsFin(x) /\ IsFin(y) /\ Small(x, y)) =>
                       /\ IsFin(r) /\ (IsZero(r) \/ Sx(r) = Sx(y))
                       /\ NLt(Mag(r), Mag(y))
                       /\ Cong(x, y, r, RemTol(x, y))
(* largest and smallest of several numbers that are not NaN *)
MaxOK(S, m) == m \in S /\ \A z \in S : ~Less(m, z)
MinOK(S, m) == m \in S /\ \A z \in S : ~Less(z, m)
(* limits lo <= hi *)
CoerceOK(x, lo, hi, r, y) == IF IsNaNF(x) THEN ~r /\ SameVal(y, lo)
                             ELSE IF Less(x, lo) THEN ~r /\ SameVal(y, lo)
                             ELSE IF Less(hi, x) THEN ~r /\ SameVal(y, hi)
                             ELSE r /\ SameVal(y, x)
(* largest finite number *)
MaxMag == Mag(OfRaw(0, RawInf - 1))
=============================================================================
