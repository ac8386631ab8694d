------------------------------ MODULE AutoTune ------------------------------
(***************************************************************************)
(* Self-tuning of a PID controller.  A tuner identifies the process as      *)
(*      y(k) = b u(k-1) - a y(k-1)                                          *)
(* by recursive least squares with forgetting factor l, turns (b, a) into a *)
(* static gain k and a time constant tao (smoothed with memory mu), and,    *)
(* when armed with n steps, installs the gains of the selected controller   *)
(* type at the n-th step with a meaningful estimate, exactly once.          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC
\* each tuner is modelled twice, sh = FALSE in (practically) exact arithmetic and sh = TRUE rounding every
\* intermediate to single precision; their distance measures how much rounding matters for this history
RR(sh, x) == IF sh THEN NF32(x) ELSE NRnd(x)
Off == -1                                      \* not armed
Fresh(kc, ki, dt, type, sh) ==
  LET kk == NDiv(kc, "0.9") a == RR(sh, NNeg(NExp(NNeg(NDiv(NMul(dt, ki), NMul("0.27", kk)))))) IN
  [sh |-> sh, p00 |-> "1000", p01 |-> "0", p10 |-> "0", p11 |-> "1000", a |-> a, b |-> RR(sh, NMul(kk, NAdd("1", a))), u |-> "0", y |-> "0",
   l |-> NF32("0.9898"), mu |-> NF32("0.95"), sp |-> "1/4", k |-> "0", tao |-> "0", it |-> Off, type |-> type]
\* one least-squares update with the new pair (u, y)
Learn(t, u, y) ==
  LET th1 == RR(t.sh, NSub(NMul(t.p00, t.u), NMul(t.p01, t.y))) \* P phi, phi = (u, -y)
      th2 == RR(t.sh, NSub(NMul(t.p10, t.u), NMul(t.p11, t.y)))
      r == RR(t.sh, NAdd(t.l, NSub(NMul(t.u, th1), NMul(t.y, th2))))
      g1 == RR(t.sh, NDiv(th1, r)) g2 == RR(t.sh, NDiv(th2, r))
      err == RR(t.sh, NSub(y, NSub(NMul(t.b, t.u), NMul(t.a, t.y))))
      q1 == RR(t.sh, NSub(NMul(t.u, t.p00), NMul(t.y, t.p10))) \* phi' P
      q2 == RR(t.sh, NSub(NMul(t.u, t.p01), NMul(t.y, t.p11)))
      Dn(p, g, q) == RR(t.sh, NDiv(NSub(p, NMul(g, q)), t.l))
  IN [t EXCEPT !.b = RR(t.sh, NAdd(t.b, NMul(g1, err))), !.a = RR(t.sh, NAdd(t.a, NMul(g2, err))), !.u = u, !.y = y,
               !.p00 = RR(t.sh, NAdd(Dn(t.p00, g1, q1), "1e-10")), !.p01 = Dn(t.p01, g1, q2), !.p10 = Dn(t.p10, g2, q1), !.p11 = RR(t.sh, NAdd(Dn(t.p11, g2, q2), "1e-10"))]
Gain(t) == RR(t.sh, NDiv(t.b, NAdd("1", t.a)))
\* undefined estimates are never used
Defined(t) == ~NEq(NAbs(t.a), "1") /\ ~NEq(t.a, "0")
Lag(t, dt) == RR(t.sh, NNeg(NDiv(dt, NLn(NAbs(t.a)))))
\* is the estimate meaningful (0 < gain and 0 < time constant, both finite)?  Both answers when it is within Slack of the edge
Slack == "1e-3"
Sensible(t) ==
  LET m == NAbs(t.a) IN
  IF NEq(m, "1") \/ NEq(m, "0") THEN {FALSE}
  ELSE IF NLe(NAbs(NAdd("1", t.a)), Slack) \/ NLe(NAbs(t.b), NMul(Slack, NAdd("1", m))) \/ NLe(NAbs(NSub(m, "1")), Slack) \/ NLe(m, "1e-6") THEN {TRUE, FALSE}
  ELSE {NLt(m, "1") /\ NLt("0", NDiv(t.b, NAdd("1", t.a)))}
Smooth(t, new, old) == RR(t.sh, NAdd(new, NMul(t.mu, NSub(old, new))))
Refine(t, dt) == IF ~Defined(t) THEN t ELSE [t EXCEPT !.k = Smooth(t, Gain(t), t.k), !.tao = Smooth(t, Lag(t, dt), t.tao), !.it = IF t.it = Off THEN Off ELSE t.it - 1]
\* both models after one more sample, and whether the tuner delivers its gains now
Both(t, u, y) == <<Learn(t[1], u, y), Learn(t[2], u, y)>>
Sample(t, u, y, dt) == LET n == Both(t, u, y) IN
   IF t[1].it = 0 THEN {[t |-> n, fire |-> FALSE]}                    \* done: the estimates stay
   ELSE {IF ok THEN LET m == <<Refine(n[1], dt), Refine(n[2], dt)>> IN [t |-> m, fire |-> m[1].it = 0] ELSE [t |-> n, fire |-> FALSE] :
         ok \in (Sensible(n[1]) \cup Sensible(n[2])) }
\* tuning rules for dead time 0.1 tao
Rule(t) ==
  LET P(c, o) == RR(t.sh, NDiv(NMul(NMul(t.sp, c), NAdd("10", o)), t.k))
      kc == CASE t.type = "P" -> P("1.03", "0.34") [] t.type = "PD" -> P("1.24", "0.129") [] t.type = "PI" -> P("0.9", "0.092") [] t.type = "PID" -> P("1.35", "0.185")
  IN [kc |-> kc,
      ki |-> CASE t.type = "PI"  -> RR(t.sh, NDiv(NMul(kc, "1.222"), NMul(NMul("0.333", t.tao), "1.0092")))
               [] t.type = "PID" -> RR(t.sh, NDiv(NMul(kc, "1.0611"), NMul(NMul("0.25", t.tao), "1.0185")))
               [] OTHER -> "0",
      kd |-> CASE t.type = "PD"  -> RR(t.sh, NDiv(NMul(NMul(kc, NMul("0.027", t.tao)), "0.9676"), "1.0129"))
               [] t.type = "PID" -> RR(t.sh, NDiv(NMul(kc, NMul("0.037", t.tao)), "1.0185"))
               [] OTHER -> "0"]
=============================================================================
