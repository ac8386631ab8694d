------------------------------- MODULE F32MC --------------------------------
(* The bit manipulations of the library, transcribed for a small format, are  *)
(* checked against the value level meaning on every number (and every pair)    *)
(* of that format.                                                             *)
EXTENDS F32, TLC
VARIABLES x, y
Nums == {<<s, e, f>> : s \in {0, 1}, e \in 0..EMAX, f \in 0..(P2(FB) - 1)}
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
(* one variable only, for a format with a longer exponent *)
Init1 == x \in Nums /\ y = Zero(0)
Spec1 == Init1 /\ [][Next]_<<x, y>>
-----------------------------------------------------------------------------
J0(z) == Ex(z) - BIAS                          \* unbiased exponent
Clear(r, j) == r - (r % P2(FB - j))            \* clear the fraction bits below the point
HasFrac(z) == J0(z) < 0 \/ (J0(z) < FB /\ (Raw(z) % P2(FB - J0(z))) /= 0)
BitsTrunc(z) == IF J0(z) >= FB THEN z ELSE IF J0(z) < 0 THEN Zero(Sx(z)) ELSE OfRaw(Sx(z), Clear(Raw(z), J0(z)))
AwayFromZero(z) == IF J0(z) < 0 THEN <<Sx(z), BIAS, 0>> ELSE OfRaw(Sx(z), Clear(Raw(z) + P2(FB - J0(z)), J0(z)))
BitsFloor(z) == IF J0(z) >= FB \/ IsZero(z) \/ ~HasFrac(z) THEN z ELSE IF Sx(z) = 1 THEN AwayFromZero(z) ELSE BitsTrunc(z)
BitsCeil(z) == IF J0(z) >= FB \/ IsZero(z) \/ ~HasFrac(z) THEN z ELSE IF Sx(z) = 0 THEN AwayFromZero(z) ELSE BitsTrunc(z)
BitsRound(z) == IF J0(z) >= FB THEN z
                ELSE IF J0(z) < 0 THEN (IF J0(z) = -1 THEN <<Sx(z), BIAS, 0>> ELSE Zero(Sx(z)))
                ELSE IF ~HasFrac(z) THEN z
                ELSE OfRaw(Sx(z), Clear(Raw(z) + (P2(FB - J0(z)) \div 2), J0(z)))
BitsNext(a, b) == IF Raw(a) = 0 THEN (IF Raw(b) = 0 THEN b ELSE OfRaw(Sx(b), 1))
                  ELSE IF Raw(a) > Raw(b) \/ Sx(a) /= Sx(b) THEN OfRaw(Sx(a), Raw(a) - 1) ELSE OfRaw(Sx(a), Raw(a) + 1)
RoundingOK == /\ BitsTrunc(x) = Trunc(x) /\ BitsFloor(x) = Floor(x) /\ BitsCeil(x) = Ceil(x) /\ BitsRound(x) = Nearest(x)
RoundingLaws == IsFin(x) => /\ NLe(Val(Floor(x)), Val(x)) /\ NLe(Val(x), Val(Ceil(x)))
                            /\ NLt(NSub(Val(x), Val(Floor(x))), "1") /\ NLt(NSub(Val(Ceil(x)), Val(x)), "1")
                            /\ NLe(NAbs(NSub(Val(Nearest(x)), Val(x))), "1/2")
                            /\ NEq(NAdd(Val(Trunc(x)), Val(Frac(x))), Val(x))
NextOK == (~IsNaNF(x) /\ ~IsNaNF(y) /\ x /= y) => SameBits(BitsNext(x, y), NextAfter(x, y))
NextLaws == (IsFin(x) /\ IsFin(y) /\ Less(x, y)) =>
              LET n == NextAfter(x, y) IN /\ Less(x, n) /\ ~Less(y, n)
                                          /\ \A z \in Nums : (IsFin(z) /\ Less(x, z)) => ~Less(z, n)
                                          /\ SameVal(NextAfter(n, x), x)
(* Round is the nearest number: no representable is closer to the midpoint's value *)
RoundOK == (IsFin(x) /\ IsFin(y)) =>
   /\ Round(Sx(x), Mag(x)) = x
   /\ LET v == NMul(NAdd(Val(x), Val(y)), "1/2")
          m == Midpoint(x, y)
      IN /\ IsFin(m)
         /\ \A z \in Nums : IsFin(z) => NLe(NAbs(NSub(Val(m), v)), NAbs(NSub(Val(z), v)))
(* scaling in steps of at most one exponent range, as ldexp does, equals one rounding *)
Steps(z, p) == LET big == BIAS
                   sm == 1 - BIAS + FB + 1                \* 2^sm keeps a subnormal result in one rounding
                   Mul(a, k) == IF ~IsFin(a) \/ IsZero(a) THEN a ELSE Round(Sx(a), NMul(Mag(a), NPow2(k)))
                   U(a, q) == IF q > big THEN <<Mul(a, big), q - big>> ELSE <<a, q>>
                   D(a, q) == IF q < 1 - BIAS THEN <<Mul(a, sm), q - sm>> ELSE <<a, q>>
                   u1 == U(z, p) u2 == U(u1[1], u1[2])
                   d1 == D(u2[1], u2[2]) d2 == D(d1[1], d1[2])
                   q == IF d2[2] > big THEN big ELSE IF d2[2] < 1 - BIAS THEN 1 - BIAS ELSE d2[2]
               IN Mul(d2[1], q)
(* two steps reach every result when the exponent range is long enough for the fraction, as in binary32 *)
ASSUME ~(BIAS < (3 * FB) + 6 /\ EB > 4)
LdexpOK == ~IsNaNF(x) => \A p \in (0 - (3 * BIAS))..(3 * BIAS) : Steps(x, p) = Ldexp(x, p)
=============================================================================
