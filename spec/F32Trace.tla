------------------------------ MODULE F32Trace ------------------------------
EXTENDS F32, TraceBase
VARIABLE i
Ok(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "const" -> e.inf = Inf(0) /\ IsNaNF(e.nan)
    [] e.op = "un" -> LET c == Class(e.x) IN
         /\ e.cls = c /\ e.nan = (c = 4) /\ e.inf = (c = 3) /\ e.fin = (c < 3) /\ e.nor = (c = 2)
         /\ SignOK(e.x, e.sign) /\ Same(e.abs, Abs(e.x))
    [] e.op = "int" ->
         /\ Same(e.round, Nearest(e.x)) /\ Same(e.floor, Floor(e.x)) /\ Same(e.ceil, Ceil(e.x)) /\ Same(e.trunc, Trunc(e.x))
         /\ (IsFin(e.x) => SameVal(e.frac, Frac(e.x))) /\ (IsNaNF(e.x) => IsNaNF(e.frac))
    [] e.op = "rexp" -> RexpOK(e.x, e.y, e.p) /\ (IsFin(e.x) => e.back = e.x)
    [] e.op = "ldexp" -> Same(e.y, Ldexp(e.x, e.p))
    [] e.op = "bin" -> Same(e.cs, CopySign(e.x, e.y)) /\ Same(e.next, NextAfter(e.x, e.y))
    [] e.op = "mid" -> SameVal(e.m, Midpoint(e.x, e.y))
    [] e.op = "eq" -> e.r = IsEqual(e.x, e.y, e.t)
    [] e.op = "coerce" -> CoerceOK(e.x, e.lo, e.hi, e.r, e.y)
    [] e.op = "mm" -> /\ e.max1 = e.x /\ e.min1 = e.x
                      /\ MaxOK({e.x, e.y}, e.max2) /\ MinOK({e.x, e.y}, e.min2)
                      /\ MaxOK({e.x, e.y, e.z, e.w}, e.max4) /\ MinOK({e.x, e.y, e.z, e.w}, e.min4)
    [] e.op = "rem" -> RemOK(e.x, e.y, e.rem) /\ ModOK(e.x, e.y, e.mod)
    [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
