-------------------------------- MODULE FFMC --------------------------------
(* The approximations the library uses, in exact arithmetic, stay within the  *)
(* stated error on a lattice (exponents modulo the period of the method, 64     *)
(* mantissas); the reference functions satisfy their functional equations.      *)
EXTENDS FF, TLC, Json
CONSTANT N
VARIABLES k, e
Init == k \in 0..(N - 1) /\ e \in {-3, -2, -1, 0, 1, 2}
Next == UNCHANGED <<k, e>>
Spec == Init /\ [][Next]_<<k, e>>
M == NDiv(NOf(k), NOf(N))                 \* fraction in [0, 1)
X == NMul(NPow2(e), NAdd("1", M))         \* the number with exponent e and fraction M
(* reading the bits of a float as an integer: 2^23 (e + 127 + M); and back *)
Bits(ex, m) == NAdd(NAdd(NOf(ex), "127"), m)
OfBits(v) == LET f == NFloor(v) IN NMul(NPow2(NInt(f) - 127), NAdd("1", NSub(v, f)))
Near(y, t, r) == NLe(NAbs(NSub(y, t)), NMul(r, NAbs(t)))
NearA(y, t, a) == NLe(NAbs(NSub(y, t)), a)
Newton(x, z) == NMul(Half, NAdd(NDiv(x, z), z))
SqrtAlg(ex, m, x) == LET z == OfBits(NAdd(NMul(Half, NSub(Bits(ex, m), "1")), "64")) IN Newton(x, Newton(x, z))
RSqrtAlg(ex, m, x) == LET z == OfBits(NSub(NDiv("1597463174", "8388608"), NMul(Half, Bits(ex, m))))
                      IN NMul(z, NSub("1.5", NMul(NMul(Half, x), NSq(z))))
RecipAlg(ex, m, x) == LET z == OfBits(NSub(NDiv("2129859015", "8388608"), Bits(ex, m))) IN NMul(z, NSub("2", NMul(x, z)))
CbrtAlg(ex, m, x, r) == LET y0 == OfBits(NSub(NDiv("1418472267", "8388608"), NDiv(Bits(ex, m), "3")))
                            c0 == NMul(x, NPow(y0, 3))
                            y == NMul(y0, NSub("1.752319676", NMul(c0, NSub("1.2509524245", NMul("0.5093818292", c0)))))
                            d == NMul(x, NSq(y))
                            c == NSub("1", NMul(d, y))
                        IN NMul(NAdd("1", NDiv(c, "3")), IF r THEN y ELSE d)
Horner(cs, v) == LET RECURSIVE H(_, _)
                     H(i, acc) == IF i > Len(cs) THEN acc ELSE H(i + 1, NAdd(NMul(acc, v), cs[i]))
                 IN H(1, "0")
Exp2Poly(v) == Horner(<<"0.0001535336188319500", "0.001339887440266574", "0.009618437357674640", "0.05550332471162809", "0.2402264791363012", "0.6931472028550421", "1">>, v)
LogPoly(v) == LET p == Horner(<<"0.070376836292", "-0.11514610310", "0.11676998740", "-0.12420140846", "0.14249322787", "-0.16668057665", "0.20000714765", "-0.24999993993", "0.33333331174">>, v)
                  z == NSq(v)
              IN NAdd(NSub(NMul(NMul(v, z), p), NMul(Half, z)), v)
SinPoly(v) == LET w == NMul(v, NSub(NAbs(v), "1")) IN NMul(w, NAdd(NMul("3.5841304553896", NAbs(w)), "3.1039673861526"))
AsinPoly(v) == LET w == NSub(NSqrt(NAdd("1", v)), NSqrt(NSub("1", v))) IN NMul(w, NAdd(NMul("0.131754508171", NAbs(w)), "0.924391722181"))
AtanPoly(v) == LET w == NDiv(v, NAdd("1", NAbs(v))) a == NAbs(w) IN NMul(w, NAdd(NMul(a, NAdd(NMul("-1.45667498914", a), "2.18501248371")), "0.842458832225"))
RootsOK == /\ Near(SqrtAlg(e, M, X), NSqrt(X), "0.000002")
           /\ Near(RSqrtAlg(e, M, X), NDiv("1", NSqrt(X)), "0.0018")
           /\ Near(RecipAlg(e, M, X), NDiv("1", X), "0.003")
           /\ Near(CbrtAlg(e, M, X, FALSE), CbrtR(X), "0.00003")
           /\ Near(CbrtAlg(e, M, X, TRUE), NDiv("1", CbrtR(X)), "0.00003")
PolysOK == /\ LET fp == NSub(M, Half) IN Near(Exp2Poly(fp), ExpR(NMul(fp, Ln2)), "0.000006")
           /\ LET v == NAdd(NSqrt(Half), NMul(M, NSub(NSqrt("2"), NSqrt(Half)))) IN NearA(LogPoly(NSub(v, "1")), NLn(v), "0.0000003")
           /\ NearA(SinPoly(NNeg(M)), NSin(NMul(M, NPi)), "0.0011")
           /\ NearA(AsinPoly(M), AsinR(M), "0.013") /\ NearA(AsinPoly(NNeg(M)), AsinR(NNeg(M)), "0.013")
           /\ NearA(AtanPoly(X), NAtan(X), "0.0065")
EPS == NPow2(-80)
OracleOK == /\ NearA(NAdd(NSq(NSin(X)), NSq(NCos(X))), "1", EPS)
            /\ NearA(ExpR(NLn(X)), X, EPS) /\ NearA(NMul(ExpR(X), ExpR(NNeg(X))), "1", EPS)
            /\ NearA(NPow(CbrtR(X), 3), X, EPS)
            /\ NearA(NSin(AsinR(M)), M, EPS) /\ NearA(SinhR(AsinhR(X)), X, EPS)
            /\ (NLt("1", X) => NearA(CoshR(AcoshR(X)), X, EPS)) /\ NearA(TanhR(AtanhR(M)), M, EPS)
            /\ NearA(NSin(NSub(X, NPi)), NNeg(NSin(X)), EPS)
            /\ NearA(SinhR(NMul(M, NPow2(-9))), NMul(Half, NSub(NExp(NMul(M, NPow2(-9))), NExp(NMul(NNeg(M), NPow2(-9))))), EPS)
            /\ NearA(NSub(Angle(M, X), Angle(M, NNeg(X))), NSub(NMul("2", NAtan(NDiv(M, X))), NPi), EPS)
Emit == PrintT("HIST " \o ToJson([e |-> e, k |-> k]))
=============================================================================
