-------------------------------- MODULE SFMC --------------------------------
(* The reference functions satisfy the equations that define them, on a       *)
(* lattice of arguments; the lattice is replayed.                               *)
EXTENDS SF, TLC, Json
CONSTANT N
VARIABLES k
Init == k \in 0..N
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
U == NDiv(NOf(k), NOf(N))                    \* 0..1
V == NAdd("1/7", NMul("0.8", U))             \* inside (0, 1)
X == NAdd("1/9", NMul("11", U))
EPS == NPow2(-60)
Eq(a, b) == NLe(NAbs(NSub(a, b)), NMul(EPS, NAdd("1", NAbs(b))))
GammaLaws == /\ Eq(LnGamma(NAdd(X, "1")), NAdd(LnGamma(X), NLn(X)))                                              \* recurrence
             /\ Eq(NMul(Gamma(V), Gamma(NSub("1", V))), NDiv(NPi, SinPi(V)))                                     \* reflection
             /\ Eq(NAdd(LnGamma(V), LnGamma(NAdd(V, Half))), NAdd(LnGamma(NMul("2", V)), NAdd(NMul(NSub("1", NMul("2", V)), Ln2), NMul(Half, NLn(NPi)))))
             /\ Eq(Gamma(NNeg(X)), NNeg(NDiv(Gamma(NSub("1", X)), X)))
             /\ (k < 30 => Eq(LnGamma(NOf(k + 1)), NLn(Fact(k))))
             /\ Eq(Gamma(Half), NSqrt(NPi))
ErfLaws == LET x == NMul("5", U) h == NPow2(-20)                                                                  \* derivative 2/sqrt(pi) exp(-x^2)
           IN /\ NLe(NAbs(NSub(NDiv(NSub(Erf(NAdd(x, h)), Erf(NSub(x, h))), NMul("2", h)), NMul(TwoOverSqrtPi, ExpR(NNeg(NSq(x)))))), NPow2(-36))
              /\ Eq(Erf(NNeg(x)), NNeg(Erf(x)))
EiLaws == /\ LET x == NAdd("45", NMul("20", U)) IN NLe(NAbs(NSub(EiSer(x), EiAsy(x))), NMul(NPow2(-55), EiAsy(x)))
          /\ LET x == NSub("-22", NMul("3", U)) IN NLe(NAbs(NSub(EiSer(x), EiAsy(x))), NMul(NPow2(-28), NAbs(EiAsy(x))))
          /\ LET x == X h == NPow2(-20) IN NLe(NAbs(NSub(NDiv(NSub(Ei(NAdd(x, h)), Ei(NSub(x, h))), NMul("2", h)), NDiv(ExpR(x), x))), NMul(NPow2(-20), ExpR(x)))
ZetaLaws == /\ Eq(ZetaP("2"), NDiv(NSq(NPi), "6")) /\ Eq(ZetaP("4"), NDiv(NPow(NPi, 4), "90"))
            /\ Eq(ZetaP("0"), "-1/2") /\ Eq(Zeta("-1"), "-1/12") /\ Eq(Zeta("-3"), "1/120") /\ Eq(Zeta("-2"), "0")
            /\ Eq(ZetaP(V), NMul(SinPi(NMul(Half, V)), ZetaRefl(V)))                                              \* functional equation inside the strip
            /\ LET s == NAdd("2", X)                                                                              \* Euler product over the first primes bounds it
                   RECURSIVE P(_)
                   P(q) == IF q = <<>> THEN "1" ELSE NMul(NSub("1", PowN(Head(q), NNeg(s))), P(Tail(q)))
                   e == NRnd(NDiv("1", P(<<2, 3, 5, 7, 11, 13>>)))
               IN NLe(e, NAdd(ZetaP(s), EPS)) /\ NLe(ZetaP(s), NMul(e, NAdd("1", NMul("17", PowN(17, NNeg(s))))))
RECURSIVE Agm(_, _, _)
Agm(a, b, n) == IF n = 0 THEN a ELSE Agm(NRnd(NMul(Half, NAdd(a, b))), NSqrt(NRnd(NMul(a, b))), n - 1)
EllLaws == LET c == NSqrt(NSub("1", NSq(V)))                                                                      \* complementary modulus
               phi == NSub(NMul("3", U), "1.4")
           IN /\ Eq(K1(V), NDiv(NPi, NMul("2", Agm("1", c, 7))))
              /\ NLe(NAbs(NSub(NSub(NAdd(NMul(K2(V), K1(c)), NMul(K2(c), K1(V))), NMul(K1(V), K1(c))), Pi2)), NPow2(-38))   \* Legendre's relation
              /\ Eq(Inc(1, "0", "0", phi), phi) /\ NLe(NAbs(NSub(Inc(2, "0", "0", phi), phi)), NPow2(-38))
              /\ NLe(NAbs(NSub(Inc(2, "1", "0", NMul("1.4", U)), NSin(NMul("1.4", U)))), NPow2(-38))
              /\ Eq(Inc(3, V, "0", phi), Inc(1, V, "0", phi))
              /\ Eq(Inc(1, V, "0", NAdd(phi, NPi)), NAdd(Inc(1, V, "0", phi), NMul("2", K1(V))))
              /\ NLe(NAbs(NSub(Inc(2, V, "0", NSub(phi, NPi)), NSub(Inc(2, V, "0", phi), NMul("2", K2(V))))), NPow2(-36))
              /\ NLe(NAbs(NSub(K3("0", "-3"), NDiv(Pi2, NSqrt("4")))), NPow2(-36))
              /\ NLe(NAbs(NSub(K3(V, NSq(V)), NDiv(K2(V), NSub("1", NSq(V))))), NPow2(-34))                       \* nu = k^2
Emit == PrintT("HIST " \o ToJson([k |-> k]))
=============================================================================
