--------------------------- MODULE SmootherTrace ---------------------------
EXTENDS Smoother, TraceBase
VARIABLES i, f, sick      \* f = <<>>: no accepted set-up yet
\* sick: a sample that is no number (or infinite) has entered the memory; what follows is open until the memory is started anew
Eps == NPow2(-23)
Tiny == NPow2(-120)
Big(f0, x) == NMax(f0.top, NAbs(x))
AllSame(w) == \A j \in 2..Len(w) : NEq(w[j], w[1])
Tol(f0, x) ==
  LET b == Big(f0, x) k == NOf(f0.k + 8) IN
  NAdd(Tiny,
  CASE f0.kind = "lpf1" -> NMul("4", NMul(Eps, b))
    [] f0.kind = "expw" -> NMul("16", NMul(Eps, b))
    [] f0.kind = "lpf2" -> NMul("2/100000", NMax(b, IF f0.fresh THEN b ELSE NMax(NAbs(f0.m.y1), NAbs(f0.m.y2))))
    [] f0.kind = "mwm1" -> NMul(NOf(f0.par.n + 4), NMul(Eps, b))
    [] f0.kind \in {"mwm2", "mor1", "mor2"} -> NMul(NMul("2", NAdd(k, NOf(f0.par.n))), NMul(Eps, b))
    [] f0.kind = "gmwf" -> NMul(IF AllSame(Push(Win(f0, x), x)) THEN NMul(NOf(f0.par.n + 4), Eps) ELSE "2/100000", b)
    [] f0.kind = "klmn" -> NAdd(NMul("4", NMul(Eps, b)), NMul("5/100000", NAbs(NSub(x, IF f0.fresh THEN x ELSE f0.m.y1))))
    [] f0.kind = "desf" -> NMul(NMul(k, NOf(2 * (1 + f0.par.n))), NMul(Eps, b))
    [] f0.kind = "alnf" -> NMul("3/100000", NMax("1", b)))
Slack(f0, x) == IF f0.kind \in {"mor1", "mor2"} THEN NMul("2", Tol(f0, x)) ELSE "0"
Par(e) == [n |-> e.n, a |-> e.a, b |-> e.b, c |-> e.c, win |-> e.win, wgt |-> e.wgt, w1 |-> e.w1]
Setup(e) == /\ \/ e.ok = Valid(e.kind, Par(e))
               \/ Open(e.kind, Par(e))
            /\ f' = IF e.ok THEN Configured(e.kind, Par(e)) ELSE IF e.op = "new" THEN <<>> ELSE f
            /\ sick' = (sick /\ ~e.ok /\ e.op # "new")
Sample(e) == /\ f # <<>>
             /\ sick' = (sick \/ ~IsNum(e.x))
             /\ IF sick' THEN f' = f
                ELSE /\ IsNum(e.y)
                     /\ \E v \in Ideal(f, e.x, Slack(f, e.x)) : NNear(e.y, v, Tol(f, e.x))
                     /\ f' = After(f, e.x, e.y)
Init == i = 0 /\ f = <<>> /\ sick = FALSE
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i']
           IN CASE e.op \in {"new", "setup"} -> Setup(e)
                [] e.op = "x" -> Sample(e)
                [] e.op = "reset" -> f # <<>> /\ e.ok /\ f' = ResetOf(f) /\ sick' = FALSE
Spec == Init /\ [][Next]_<<i, f, sick>>
=============================================================================
