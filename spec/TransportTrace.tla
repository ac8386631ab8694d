--------------------------- MODULE TransportTrace ---------------------------
EXTENDS Transport, TraceBase
VARIABLES i, q
\* a sample that is no number or infinite is delivered as it came
Same(a, b) == IF IsNum(a) /\ IsNum(b) THEN NEq(a, b) ELSE a = b
Init == i = 0 /\ q = <<>>
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           CASE e.op = "new" -> q' = Start(e.n, e.v)
             [] e.op = "x" -> Same(e.y, Out(q)) /\ q' = In(q, e.x)
             [] e.op = "burst" -> LET v(k) == NOf(e.s + k - 1)
                                  IN (\A k \in DOMAIN e.ix : Same(e.y[k], OutAt(q, v, e.ix[k] + 1))) /\ q' = InAll(q, v, e.m)
             [] e.op = "steps" -> (\E s \in Steps(e.t, e.dt) : NEq(e.k, s)) /\ UNCHANGED q
Spec == Init /\ [][Next]_<<i, q>>
=============================================================================
