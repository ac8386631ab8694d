-------------------------------- MODULE PID --------------------------------
(***************************************************************************)
(* PID controller with set-point weighting, filtered derivative, output     *)
(* saturation with back-calculation anti-windup, manual mode with tracking  *)
(* (bumpless transfer), dead zone and an additive model-reference term.     *)
(*                                                                          *)
(*   v  = kc e_b + ki Int(e + u1) + kd D + w theta                          *)
(*   D  = filtered derivative of e_c        (beta: filter memory)           *)
(*   m  = Int(kt manual + kw (u(k-1) - m))                                  *)
(*   u  = Sat(v in automatic, m in manual),   u1 = kw (u - v)               *)
(*   e_k = k w - y, or 0 when within epsilon                                *)
(*                                                                          *)
(* Values are exact; a value x comes with a bound ex on the error of a      *)
(* single precision evaluation.  Through the anti-windup feedback those     *)
(* bounds would grow although the errors contract, so the one of the        *)
(* integral is capped at 2^-13 of the largest integral seen so far.         *)
(***************************************************************************)
EXTENDS NumaRules, Integers, SequencesExt, TLC
U == NPow2(-23)
Z3 == [x |-> "0", p |-> "0", r |-> "0", ex |-> "0", ep |-> "0", er |-> "0"]
Sum(a, b) == NAdd(NAbs(a), NAbs(b))
AbsRule(m, a, b, c) == IF m = "quad" THEN NDiv(NAdd(NAdd(NMul("5", NAbs(a)), NMul("8", NAbs(b))), NAbs(c)), "12") ELSE IntRule(m, NAbs(a), NAbs(b), NAbs(c))
\* advance integral state q with sample s (error es)
Adv(m, q, s, es, dt) ==
  [x  |-> NRnd(NAdd(q.x, NMul(dt, IntRule(m, s, q.p, q.r)))), p |-> NRnd(s), r |-> q.p,
   ex |-> NRnd(NSum(<<q.ex, NMul(dt, AbsRule(m, es, q.ep, q.er)), NMul("8", NMul(U, NAdd(NAbs(q.x), NMul(dt, AbsRule(m, s, q.p, q.r)))))>>)),
   ep |-> NRnd(es), er |-> q.ep]

FltMin == NPow2(-126)
Memory == [I |-> Z3, Dd |-> Z3, D |-> "0", eD |-> "0", u1 |-> "0", eu1 |-> "0", M |-> Z3, T |-> Z3, us |-> "0", mag |-> "0"]
Defaults(kc, ki, kd, dt) ==
  [kc |-> kc, ki |-> ki, kd |-> kd, dt |-> dt, beta |-> NF32("0.98"), ebeta |-> "0", eps |-> FltMin, lo |-> "0", hi |-> "100",
   mode |-> "auto", man |-> "0", kw |-> "1", kt |-> "1", dir |-> "fwd", b |-> "1", c |-> "0"]
\* a controller: configuration g, memory z, and what set-up does not touch
Blank == [live |-> FALSE, g |-> Defaults("0", "0", "0", "1"), z |-> Memory, im |-> "trap", dm |-> "two", mr |-> <<>>]
SetUp(c, kc, ki, kd, dt) == [c EXCEPT !.live = TRUE, !.g = Defaults(kc, ki, kd, dt), !.z = Memory]
ResetPid(c) == [c EXCEPT !.z = Memory]

\* admissible errors k w - y with the dead zone; Te: rounding of that expression
Te(w, y, k) == LET p == NMul(k, w) v == NSub(p, y)
               IN IF NEq(NF32(p), p) /\ NEq(NF32(v), v) THEN "0" ELSE NMul(NMul("2", U), Sum(p, y))
Err(w, y, k, eps) ==
  LET v == NSub(NMul(k, w), y) a == NAbs(v) t == Te(w, y, k) IN
  IF NLt(NAdd(eps, t), a) THEN {v}
  ELSE IF NLe(NAdd(a, t), eps) THEN {"0"}
  ELSE IF NLe(NAdd(a, eps), NMul("4", t)) THEN {v}        \* zero or not makes no difference beyond rounding
  ELSE {v, "0"}
Signed(k, dir) == IF dir = "bwd" THEN NNeg(NAbs(k)) ELSE k
\* u1 within the dead zone? (both when that cannot be decided)
Settled(c) == LET a == NAbs(c.z.u1) IN IF NLt(NAdd(c.g.eps, c.z.eu1), a) THEN {FALSE} ELSE IF NLe(NAdd(a, c.z.eu1), c.g.eps) THEN {TRUE} ELSE {TRUE, FALSE}
PidChoices(c, w, y) == {ch \in {[e |-> e, ec |-> ec, eb |-> eb, st |-> st] :
    e \in Err(w, y, "1", c.g.eps), ec \in Err(w, y, c.g.c, c.g.eps), eb \in Err(w, y, c.g.b, c.g.eps), st \in (IF c.mr = <<>> THEN {TRUE} ELSE Settled(c))} :
    (NEq(c.g.b, "1") => ch.eb = ch.e) /\ (NEq(c.g.c, "1") => ch.ec = ch.e) /\ (NEq(c.g.b, c.g.c) => ch.eb = ch.ec)}

Compute(c, w, y, ref, ch) ==
  LET g == c.g z == c.z
      s == NAdd(ch.e, z.u1) es == NAdd(NAdd(Te(w, y, "1"), z.eu1), NMul(U, NAbs(s)))
      I1 == Adv(c.im, z.I, s, es, g.dt)
      mag2 == NRnd(NMaxSeq(<<z.mag, NAbs(I1.x), NMul(g.dt, NAbs(s))>>))
      I2 == [I1 EXCEPT !.ex = NMin(I1.ex, NMul(NPow2(-13), mag2))]
      tc == Te(w, y, g.c)
      d  == NRnd(NDiv(DerRule(c.dm, ch.ec, z.Dd.p, z.Dd.r), g.dt))
      ed == NDiv(NMul("2", NAdd(NSum(<<tc, z.Dd.ep, z.Dd.er>>), NMul(NMul("4", U), Mag(ch.ec, z.Dd.p, z.Dd.r)))), g.dt)
      D2 == NRnd(NAdd(d, NMul(g.beta, NSub(z.D, d))))
      eD2 == NRnd(NSum(<<ed, NMul(g.beta, z.eD), NMul(NAdd(g.ebeta, NMul("4", U)), Sum(z.D, d))>>))
      kc == Signed(g.kc, g.dir) ki == Signed(g.ki, g.dir) kd == Signed(g.kd, g.dir)
      v0 == NSum(<<NMul(kc, ch.eb), NMul(ki, I2.x), NMul(kd, D2)>>)
      m0 == NSum(<<NAbs(NMul(kc, ch.eb)), NAbs(NMul(ki, I2.x)), NAbs(NMul(kd, D2))>>)
      ev0 == NSum(<<NMul(NAbs(kc), Te(w, y, g.b)), NMul(NAbs(ki), I2.ex), NMul(NAbs(kd), eD2), NMul(NMul("6", U), m0)>>)
      adapt == c.mr # <<>> /\ ch.st
      den == IF adapt THEN NAdd(c.mr[2], NSq(ref)) ELSE "1"
      delta == IF adapt THEN NRnd(NNeg(NDiv(NMul(NMul(c.mr[1], NSub(y, ref)), ref), den))) ELSE "0"
      edelta == IF adapt THEN NMul(NMul("8", U), NDiv(NMul(NMul(c.mr[1], Sum(y, ref)), NAbs(ref)), den)) ELSE "0"
      T2 == IF adapt THEN Adv("trap", z.T, delta, edelta, g.dt) ELSE z.T
      th == IF adapt THEN T2.x ELSE "0"
      v == NRnd(NAdd(v0, NMul(w, th)))
      ev == NRnd(NSum(<<ev0, IF adapt THEN NMul(NAbs(w), NAdd(T2.ex, NMul(NMul("4", U), NAbs(th)))) ELSE "0", NMul(U, NAbs(v0))>>))
      bt == NAdd(NMul(g.kt, g.man), NMul(g.kw, NSub(z.us, z.M.x)))
      ebt == NAdd(NMul(NAbs(g.kw), z.M.ex), NMul(NMul("6", U), NSum(<<NAbs(NMul(g.kt, g.man)), NAbs(NMul(g.kw, z.us)), NAbs(NMul(g.kw, z.M.x))>>)))
      M2 == Adv("trap", z.M, bt, ebt, g.dt)
      sw == IF g.mode = "auto" THEN v ELSE M2.x
  IN [v |-> v, ev |-> ev, u |-> NClamp(sw, g.lo, g.hi), eu |-> IF g.mode = "auto" THEN ev ELSE M2.ex,
      I |-> I2, Dd |-> [z.Dd EXCEPT !.p = ch.ec, !.r = z.Dd.p, !.ep = tc, !.er = z.Dd.ep], D |-> D2, eD |-> eD2, M |-> M2, T |-> T2, mag |-> mag2]
\* the controller after having answered u
Commit(c, k, u) ==
  LET g == c.g
      inside == NLt(g.lo, u) /\ NLt(u, g.hi)
      exact == g.mode = "auto" /\ inside               \* then u is v itself
      M2 == IF g.mode = "man" /\ inside THEN [k.M EXCEPT !.x = u, !.ex = "0"] ELSE k.M
  IN [c EXCEPT !.z = [I |-> k.I, Dd |-> k.Dd, D |-> k.D, eD |-> k.eD, M |-> M2, T |-> k.T, us |-> u, mag |-> k.mag,
                      u1 |-> IF exact THEN "0" ELSE NRnd(NMul(g.kw, NSub(u, k.v))),
                      eu1 |-> IF exact THEN "0" ELSE NRnd(NMul(NAbs(g.kw), NAdd(k.ev, NMul(NMul("4", U), Sum(u, k.v)))))]]
=============================================================================
