------------------------------ MODULE LTITrace ------------------------------
EXTENDS LTI, TraceBase
VARIABLES i, sys, dl, lim, sick            \* sys = <<>>: not initialized
vars == <<i, sys, dl, lim, sick>>
\* sick: a sample that is no number (or infinite) has entered the memory; what follows is open until the memory is started anew
NumSeq(s) == \A k \in 1..Len(s) : IsNum(s[k])
Accept(e) == ~e.null /\ IF e.kind = "d" THEN Len(e.b) > 0 /\ Len(e.a) > 0 ELSE Len(e.a) > 1
Build(e) == IF e.kind = "d" THEN Discrete(e.b, e.a) ELSE IF e.obs THEN Observable(Continuous(e.b, e.a, e.dt)) ELSE Continuous(e.b, e.a, e.dt)
Setup(e) == LET old == IF e.op = "new" THEN <<>> ELSE sys IN
            /\ e.op = "setup" => e.ok = Accept(e)
            /\ sys' = IF Accept(e) THEN Build(e) ELSE old
            /\ IF e.op = "new" THEN dl' = <<>> /\ lim' = <<>> ELSE UNCHANGED <<dl, lim>>
Live == sys # <<>>
Excite(e) ==
  IF ~Live THEN NEq(e.y, "0") /\ UNCHANGED <<sys, dl, lim>>
  ELSE LET d == Delayed(dl, e.u) IN
       IF sick \/ ~IsNum(d.u) THEN dl' = d.dl /\ UNCHANGED <<sys, lim>>
       ELSE LET r == StepL(sys, d.u)
       IN /\ IsNum(e.y)
          /\ NNear(e.y, Limit(lim, r.y), NAdd(r.ey, NPow2(-100)))
          /\ lim # <<>> => NLe(lim[1], e.y) /\ NLe(e.y, lim[2])
          /\ sys' = r.s /\ dl' = d.dl /\ UNCHANGED lim
States(e) == e.ok = Live /\ sys' = (IF Live THEN WithStates(sys, e.xi) ELSE sys) /\ UNCHANGED <<dl, lim>>
Sat(e) == LET good == Live /\ IsNum(e.lo) /\ IsNum(e.hi) /\ NLt(e.lo, e.hi)
          IN e.ok = good /\ lim' = (IF good THEN <<e.lo, e.hi>> ELSE lim) /\ UNCHANGED <<sys, dl>>
Delay(e) == e.ok = Live /\ dl' = (IF Live THEN [j \in 1..e.n |-> e.v] ELSE dl) /\ UNCHANGED <<sys, lim>>
Method(e) == LET good == Live /\ e.m \in {"rect", "trap", "simp"}
             IN e.ok = good /\ sys' = (IF good THEN [sys EXCEPT !.im = e.m] ELSE sys) /\ UNCHANGED <<dl, lim>>
\* the stateless FIR evaluation: c = <<>> means unit coefficients
Fir(e) == LET w2 == <<e.x>> \o SubSeq(e.w, 1, Len(e.w) - 1)
              c == IF e.c = <<>> THEN [j \in 1..Len(e.w) |-> "1"] ELSE e.c
          IN /\ IsNum(e.y) /\ \A j \in 1..Len(w2) : NEq(e.w2[j], w2[j])
             /\ NNear(e.y, NDot(c, w2), NAdd(NMul(NMul(NOf(Len(w2) + 2), U), NDot(Abs2(c), Abs2(w2))), NPow2(-100)))
             /\ UNCHANGED <<sys, dl, lim>>
Status(e) == e.live = (sys' # <<>>) /\ e.type = IF sys' = <<>> THEN "unknown" ELSE IF sys'.kind = "d" THEN "discrete" ELSE "continuous"
Init == i = 0 /\ sys = <<>> /\ dl = <<>> /\ lim = <<>> /\ sick = FALSE
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i']
           IN /\ CASE e.op \in {"new", "setup"} -> Setup(e)
                   [] e.op = "u" -> Excite(e)
                   [] e.op = "init" -> States(e)
                   [] e.op = "sat" -> Sat(e)
                   [] e.op = "delay" -> Delay(e)
                   [] e.op = "im" -> Method(e)
                   [] e.op = "fir" -> Fir(e)
              /\ Status(e)
              /\ sick' = CASE e.op = "new" -> FALSE
                           [] e.op = "setup" -> sick /\ ~e.ok
                           [] e.op = "init" -> FALSE
                           [] e.op = "u" -> Live /\ (sick \/ ~IsNum(Delayed(dl, e.u).u))
                           [] OTHER -> sick
Spec == Init /\ [][Next]_vars
=============================================================================
