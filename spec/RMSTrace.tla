------------------------------ MODULE RMSTrace ------------------------------
EXTENDS RMS, TraceBase
VARIABLES i, r, top, k, sick
\* sick: a sample that is no number (or infinite) has entered the memory; what follows is open until the memory is started anew
Setup(e) == /\ e.ok = (e.win /\ e.n > 0)
            /\ IF e.ok THEN r' = Fresh(e.n) /\ top' = "0" /\ k' = 0
               ELSE /\ r' = (IF e.op = "new" THEN <<>> ELSE r) /\ UNCHANGED <<top, k>>
            /\ sick' = (sick /\ ~e.ok /\ e.op # "new")
In01(v) == IsNum(v) /\ NLt("0", v) /\ NLe(v, "1")
Out01(v) == ~IsNum(v) \/ NLt(v, "0") \/ NLt("1", v)
\* lambda = 0 and alpha = 1 are where the documentation and the code differ: both answers are admissible
Params(e) == /\ (In01(e.l) /\ In01(e.a) /\ ~NEq(e.a, "1")) => e.ok
             /\ (Out01(e.l) \/ Out01(e.a) \/ NEq(e.a, "0")) => ~e.ok
             /\ r' = IF e.ok /\ r # <<>> THEN Tuned(r, e.l, e.a) ELSE r
             /\ UNCHANGED <<top, k, sick>>
Sick(e) == r # <<>> /\ (sick \/ ~IsNum(e.x)) /\ sick' = TRUE /\ UNCHANGED <<r, top, k>>
Sample(e) == /\ r # <<>> /\ ~sick /\ IsNum(e.x) /\ IsNum(e.y) /\ UNCHANGED sick
             /\ LET t == NMax(top, NAbs(e.x)) IN
                /\ top' = t /\ k' = k + 1
                /\ NNear(e.y, Estimate(r, e.x), NAdd(NMul(NMul("2", NAdd(NOf(k), "80")), NMul(NPow2(-23), t)), NPow2(-60)))
                /\ NLe("0", e.y) \/ NNear(e.y, "0", NMul(NMul(NOf(k + 1), "2"), NMul(NPow2(-23), t)))
             /\ r' = Next2(r, e.x, e.y)
Init == i = 0 /\ r = <<>> /\ top = "0" /\ k = 0 /\ sick = FALSE
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           CASE e.op \in {"new", "setup"} -> Setup(e)
             [] e.op = "par" -> Params(e)
             [] e.op = "x" -> Sick(e) \/ Sample(e)
Spec == Init /\ [][Next]_<<i, r, top, k, sick>>
=============================================================================
