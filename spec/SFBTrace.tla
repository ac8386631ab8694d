------------------------------ MODULE SFBTrace ------------------------------
EXTENDS SFB, TraceBase
VARIABLE i
Ok(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "poly" -> PolyOK(e.f, NInt(e.n), e.x, e.y)
    [] e.op = "assoc" -> IF e.f = "sph" THEN SphOK(NInt(e.n), NInt(e.m), e.x, e.y) ELSE AssocOK(e.f, NInt(e.n), NInt(e.m), e.x, e.y)
    [] e.op = "bes" -> BesOK(e.f, e.nu, e.x, e.y)
    [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
