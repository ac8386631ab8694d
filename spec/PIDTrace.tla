------------------------------ MODULE PIDTrace ------------------------------
EXTENDS PID, TraceBase
VARIABLES i, c, sick
\* sick: a sample that is no number (or infinite) has entered the memory; what follows is open until the memory is started anew
NearR(a, b) == IsNum(a) /\ NNear(a, b, NMul(NMul("8", U), NAbs(b)))
Same(e, d) == NEq(e.kc, d.g.kc) /\ NEq(e.ki, d.g.ki) /\ NEq(e.kd, d.g.kd)
\* a setting: served exactly when the controller is set up (and Good); then the configuration becomes d
Setting(e, good, d) == /\ e.ok = (c.live /\ good)
                       /\ c' = IF e.ok THEN d ELSE c
Pos(v) == IsNum(v) /\ NLt("0", v)
SetupEv(e) == /\ e.ok = Pos(e.dt)
              /\ c' = LET d == IF e.op = "new" THEN Blank ELSE c IN IF e.ok THEN SetUp(d, e.kc0, e.ki0, e.kd0, e.dt) ELSE d
Adopt(d, e) == [d EXCEPT !.g.kc = e.kc, !.g.ki = e.ki, !.g.kd = e.kd]
Params(e) == Setting(e, TRUE, Adopt(c, e)) /\ (e.ok => NEq(e.kc, e.p) /\ NearR(e.ki, NDiv(e.p, e.ti)) /\ NearR(e.kd, NMul(e.p, e.td)))
\* series form with gain kc, ti = kc/ki, td = kd/kc as a parallel controller
Series(e) == Setting(e, TRUE, Adopt(c, e)) /\ (e.ok =>
   LET ti == NDiv(c.g.kc, c.g.ki) td == NDiv(c.g.kd, c.g.kc) f == NAdd("1", NDiv(td, ti))
   IN NearR(e.kc, NMul(c.g.kc, f)) /\ NearR(e.ki, NDiv(c.g.kc, ti)) /\ NearR(e.kd, NMul(c.g.kc, td)))
Control(e) ==
  IF ~c.live THEN NEq(e.u, e.w) /\ c' = c
  ELSE IF sick' THEN c' = c
  ELSE /\ IsNum(e.u) /\ NLe(c.g.lo, e.u) /\ NLe(e.u, c.g.hi)
       /\ \E ch \in PidChoices(c, e.w, e.y) :
            LET k == Compute(c, e.w, e.y, e.ref, ch)
            IN /\ NNear(e.u, k.u, NAdd(k.eu, NPow2(-100)))
               /\ c' = Commit(c, k, e.u)
Clip01(v) == NClamp(v, "0", "1")
Init == i = 0 /\ c = Blank /\ sick = FALSE
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           /\ sick' = CASE e.op = "new" -> FALSE
                        [] e.op \in {"setup", "reset"} -> sick /\ ~e.ok
                        [] e.op = "ctl" -> c.live /\ (sick \/ ~IsNum(e.w) \/ ~IsNum(e.y) \/ ~IsNum(e.ref))
                        [] OTHER -> sick
           /\ CASE e.op \in {"new", "setup"} -> SetupEv(e)
                [] e.op = "ctl" -> Control(e)
                [] e.op = "gains" -> Setting(e, TRUE, [c EXCEPT !.g.kc = e.a, !.g.ki = e.b, !.g.kd = e.d])
                [] e.op = "params" -> Params(e)
                [] e.op = "series" -> Series(e)
                [] e.op = "extra" -> Setting(e, TRUE, [c EXCEPT !.g.kw = e.a, !.g.kt = e.b])
                [] e.op = "sat" -> Setting(e, IsNum(e.a) /\ IsNum(e.b) /\ NLt(e.a, e.b), [c EXCEPT !.g.lo = e.a, !.g.hi = e.b])
                [] e.op = "eps" -> Setting(e, TRUE, [c EXCEPT !.g.eps = e.a])
                [] e.op = "beta" -> Setting(e, IsNum(e.a) /\ NLe("0", e.a) /\ NLt(e.a, "1"), [c EXCEPT !.g.beta = e.a, !.g.ebeta = "0"])
                [] e.op = "tau" -> Setting(e, IsNum(e.a) /\ NLe("0", e.a),
                                           [c EXCEPT !.g.beta = IF NEq(e.a, "0") THEN "0" ELSE NRnd(NExp(NNeg(NDiv(c.g.dt, e.a)))), !.g.ebeta = "1/100000"])
                [] e.op = "mode" -> Setting(e, TRUE, [c EXCEPT !.g.mode = e.s])
                [] e.op = "dir" -> Setting(e, TRUE, [c EXCEPT !.g.dir = e.s])
                [] e.op = "weight" -> Setting(e, TRUE, [c EXCEPT !.g.b = Clip01(e.a), !.g.c = Clip01(e.b)])
                [] e.op = "manual" -> Setting(e, TRUE, [c EXCEPT !.g.man = e.a])
                [] e.op = "mrac" -> Setting(e, Pos(e.a) /\ Pos(e.b), [c EXCEPT !.mr = <<e.a, e.b>>, !.z.T = Z3])
                [] e.op = "unmrac" -> Setting(e, TRUE, [c EXCEPT !.mr = <<>>])
                [] e.op = "reset" -> Setting(e, TRUE, ResetPid(c))
                [] e.op = "im" -> c' = [c EXCEPT !.im = e.s]
                [] e.op = "dm" -> c' = [c EXCEPT !.dm = e.s]
           /\ c'.live => Same(e, c')
Spec == Init /\ [][Next]_<<i, c, sick>>
=============================================================================
