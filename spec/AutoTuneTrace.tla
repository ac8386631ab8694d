--------------------------- MODULE AutoTuneTrace ---------------------------
EXTENDS AutoTune, TraceBase
VARIABLES i, s
Tol == "1e-3"
New(kc, ki, dt, type) == <<Fresh(kc, ki, dt, type, FALSE), Fresh(kc, ki, dt, type, TRUE)>>
Blank == [live |-> FALSE, dt |-> "1", at |-> -1, t |-> <<New("1", "1", "1", "PI"), New("1", "1", "1", "PI")>>, g |-> [kc |-> "0", ki |-> "0", kd |-> "0"]]
\* within 0.1 % of the exact value x, or ten times the distance between x and its single precision model z
Near(v, x, z) == IsNum(v) /\ NNear(v, x, NAdd(NMul(Tol, NAbs(x)), NMul("10", NAbs(NSub(x, z)))))
Gains(e) == [kc |-> e.kc, ki |-> e.ki, kd |-> e.kd]
SameG(g, h) == NEq(g.kc, h.kc) /\ NEq(g.ki, h.ki) /\ NEq(g.kd, h.kd)
Estimated(t) == \A m \in 1..2 : NLt("0", t[m].k) /\ NLt("0", t[m].tao)
NearG(g, t) == Estimated(t) => LET r == Rule(t[1]) z == Rule(t[2]) IN Near(g.kc, r.kc, z.kc) /\ Near(g.ki, r.ki, z.ki) /\ Near(g.kd, r.kd, z.kd)
\* Whatever was identified, the gains on offer are those of one gain and one time constant: the same for every form of the
\* controller (compared when the form changes and nothing else) and for the integral and derivative parts of one form.
Fact(type) == CASE type = "P" -> NMul("1.03", "10.34") [] type = "PD" -> NMul("1.24", "10.129") [] type = "PI" -> NMul("0.9", "10.092") [] type = "PID" -> NMul("1.35", "10.185")
Lags(type, g) == (IF type = "PI" THEN {NDiv(NMul(g.kc, "1.222"), NMul(NMul("0.333", "1.0092"), g.ki))} ELSE {})
            \cup (IF type = "PID" THEN {NDiv(NMul(g.kc, "1.0611"), NMul(NMul("0.25", "1.0185"), g.ki)), NDiv(NMul(g.kd, "1.0185"), NMul("0.037", g.kc))} ELSE {})
            \cup (IF type = "PD" THEN {NDiv(NMul(g.kd, "1.0129"), NMul(NMul("0.027", "0.9676"), g.kc))} ELSE {})
Close(v, x) == NNear(v, x, NMul("1e-5", NAbs(x)))
Regular(type, g) == IsNum(g.kc) /\ IsNum(g.ki) /\ IsNum(g.kd) /\ ~NEq(g.kc, "0") /\ (type \in {"PI", "PID"} => ~NEq(g.ki, "0"))
                    /\ NLt(NPow2(-60), NAbs(g.kc)) /\ (type \in {"PI", "PID"} => NLt(NPow2(-60), NAbs(g.ki))) /\ (type \in {"PD", "PID"} => NLt(NPow2(-60), NAbs(g.kd)))
OneLag(S) == \A x, y \in S : Close(x, y)
OneModel(t1, g1, t2, g2) == Regular(t1, g1) /\ Regular(t2, g2) => Close(NMul(g1.kc, Fact(t2)), NMul(g2.kc, Fact(t1))) /\ OneLag(Lags(t1, g1) \cup Lags(t2, g2))
Est(e, k) == [kc |-> e.est[k][1], ki |-> e.est[k][2], kd |-> e.est[k][3]]
Consistent(e) == \A k \in 1..2 : Regular(s'.t[k][1].type, Est(e, k)) =>
    /\ OneLag(Lags(s'.t[k][1].type, Est(e, k)))
    /\ e.op = "type" /\ i > 0 /\ Trace[i].est # <<>> => OneModel(s.t[k][1].type, Est(Trace[i], k), s'.t[k][1].type, Est(e, k))
Cur == s.t[s.at + 1]
Bound == s.at >= 0
Upd(t) == [s EXCEPT !.t[s.at + 1] = t]
Mod(F(_)) == Upd(<<F(Cur[1]), F(Cur[2])>>)
Setup(e) == LET ok == NLt("0", e.dt) IN e.ok = ok /\ s' = LET b == IF e.op = "new" THEN Blank ELSE s IN IF ok THEN [b EXCEPT !.live = TRUE, !.dt = e.dt, !.g = [kc |-> e.kc0, ki |-> e.ki0, kd |-> e.kd0]] ELSE b
Valid(v) == IsNum(v) /\ NLt("0", v) /\ NLe(v, "1")
\* Many well excited steps at once, of which only the moments of change are known: nothing before the n-th step, exactly one change,
\* completion reported from that step on; what was identified is not followed (any estimate is allowed afterwards).
Forget(q) == [q EXCEPT !.k = "0", !.tao = "0"]
Run(e) ==
  LET it == Cur[1].it IN
  /\ s.live /\ Bound /\ e.lost = 0
  /\ IF it = Off THEN e.first = 0 /\ e.rep = 0 /\ e.changes = 0 /\ s' = Mod(Forget)
     ELSE IF it = 0 THEN e.first = 0 /\ e.rep = 1 /\ e.changes = 0 /\ s' = Mod(Forget)
     ELSE \/ e.n >= it /\ e.first >= it /\ e.rep = e.first /\ e.changes = 1
             /\ s' = [Mod(LAMBDA q : [Forget(q) EXCEPT !.it = 0]) EXCEPT !.g = Gains(e)]
          \/ e.n < 2*it /\ e.first = 0 /\ e.rep = 0 /\ e.changes = 0
             /\ \E left \in {it - e.n} \cap (1..it) : s' = Mod(LAMBDA q : [Forget(q) EXCEPT !.it = left])
Do(e) ==
  CASE e.op \in {"new", "setup"} -> Setup(e)
    [] e.op = "gains" -> e.ok = s.live /\ s' = IF e.ok THEN [s EXCEPT !.g = [kc |-> e.a, ki |-> e.b, kd |-> e.d]] ELSE s
    [] e.op = "bind" -> e.ok = s.live /\ s' = IF e.ok THEN [s EXCEPT !.at = e.k, !.t[e.k + 1] = New(s.g.kc, s.g.ki, s.dt, s.t[e.k + 1][1].type)] ELSE s
    [] e.op = "unbind" -> e.ok = Bound /\ s' = [s EXCEPT !.at = -1]
    [] e.op = "enable" -> e.ok = Bound /\ s' = IF e.ok THEN Mod(LAMBDA q : [q EXCEPT !.it = IF e.n = 0 THEN Off ELSE e.n]) ELSE s
    [] e.op = "params" -> e.ok = (Bound /\ Valid(e.mu) /\ Valid(e.sp) /\ Valid(e.l)) /\ s' = IF e.ok THEN Mod(LAMBDA q : [q EXCEPT !.mu = e.mu, !.sp = e.sp, !.l = e.l]) ELSE s
    [] e.op = "type" -> e.ok = Bound /\ s' = IF e.ok THEN Mod(LAMBDA q : [q EXCEPT !.type = e.s]) ELSE s
    [] e.op = "reset" -> e.ok = s.live /\ s' = s
    [] e.op \in {"sat", "open"} -> e.ok = s.live /\ s' = s
    [] e.op = "plant" -> s' = s
    [] e.op = "step" -> IF ~(s.live /\ Bound) THEN s' = s
                        ELSE \E o \in Sample(Cur, e.u, e.y, s.dt) :
                               IF o.fire THEN NearG(Gains(e), o.t) /\ s' = [Upd(o.t) EXCEPT !.g = Gains(e)]
                               ELSE s' = Upd(o.t)
    [] e.op = "run" -> Run(e)
Init == i = 0 /\ s = Blank
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           /\ Do(e)
           /\ s'.live => SameG(Gains(e), s'.g)
           /\ e.done = (s'.at >= 0 /\ s'.t[s'.at + 1][1].it = 0)
           \* the estimates on offer, for both tuners
           /\ \A k \in 1..2 : NearG(Est(e, k), s'.t[k])
           /\ Consistent(e)
Spec == Init /\ [][Next]_<<i, s>>
=============================================================================
