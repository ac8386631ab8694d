------------------------------ MODULE FFTrace -------------------------------
EXTENDS FF, TraceBase
VARIABLE i
Ok(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "fn" -> FnOK(e.f, e.x, e.y)
    [] e.op = "hypot" -> HypotOK(e.x, e.y, e.r)
    [] e.op = "atan2" -> Atan2OK(e.y, e.x, e.r)
    [] e.op = "pow" -> PowOK(e.x, e.y, e.r)
    [] e.op = "const" -> ConstOK(e.c, e.v)
    [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
