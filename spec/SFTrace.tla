------------------------------ MODULE SFTrace -------------------------------
EXTENDS SF, TraceBase
VARIABLE i
Ok(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "tgamma" -> TGammaOK(e.x, e.y)
    [] e.op = "lgamma" -> LGammaOK(e.x, e.y)
    [] e.op = "factorial" -> FactorialOK(e.x, e.y)
    [] e.op = "beta" -> BetaOK(e.x, e.z, e.y)
    [] e.op = "erf" -> ErfOK(e.x, e.y, e.c)
    [] e.op = "expint" -> EiOK(e.x, e.y)
    [] e.op = "zeta" -> ZetaOK(e.x, e.y)
    [] e.op = "comp1" -> Comp1OK(e.k, e.y)
    [] e.op = "comp2" -> Comp2OK(e.k, e.y)
    [] e.op = "comp3" -> Comp3OK(e.k, e.nu, e.y)
    [] e.op = "inc1" -> IncOK(1, e.k, "0", e.phi, e.y)
    [] e.op = "inc2" -> IncOK(2, e.k, "0", e.phi, e.y)
    [] e.op = "inc3" -> IncOK(3, e.k, e.nu, e.phi, e.y)
    [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
