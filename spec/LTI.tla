-------------------------------- MODULE LTI --------------------------------
(***************************************************************************)
(* Linear time-invariant systems given by a transfer function.              *)
(*  discrete:   (b0 + b1 z^-1 + ...)/(a0 + a1 z^-1 + ...), realised with     *)
(*              the internal signal v = u - a1 v(k-1) - ... and              *)
(*              y = b0 v + b1 v(k-1) + ...; the state holds past v.          *)
(*  continuous: (b0 s^n + ... )/(a0 s^n + ...), controllable canonical form, *)
(*              every state integrated with the selected rule at step dt;   *)
(*              a build may select the observable form instead.             *)
(* Optional input delay line and output saturation.                         *)
(* Each state carries, beside its exact value, a bound e on the error a     *)
(* single precision evaluation of the same equations may have accumulated.  *)
(***************************************************************************)
EXTENDS NumaRules, Integers, SequencesExt, TLC
U == NPow2(-23)
Zeros(n) == [j \in 1..n |-> "0"]
Z0(n) == [j \in 1..n |-> [x |-> "0", p |-> "0", r |-> "0", ex |-> "0", ep |-> "0", er |-> "0"]]
At0(s, j) == IF j <= Len(s) THEN s[j] ELSE "0"
Abs2(s) == [j \in 1..Len(s) |-> NAbs(s[j])]
\* b, a as given (a[1] is the leading coefficient)
Discrete(b, a) ==
  LET n == IF Len(a) - 1 > Len(b) THEN Len(a) - 1 ELSE Len(b)
  IN [kind |-> "d", n |-> n, b |-> [j \in 1..n |-> NDiv(At0(b, j), a[1])], a |-> [j \in 1..n |-> NDiv(At0(a, j + 1), a[1])],
      v |-> Zeros(n), ev |-> Zeros(n)]
Continuous(b, a, dt) ==
  LET n == Len(a) - 1
  IN [kind |-> "c", n |-> n, dt |-> dt, im |-> "trap", b0 |-> NDiv(b[1], a[1]),
      b |-> [j \in 1..n |-> NDiv(b[j + 1], a[1])], a |-> [j \in 1..n |-> NDiv(a[j + 1], a[1])], st |-> Z0(n)]
G(s) == NMul(NOf(2 * s.n + 8), U)                   \* relative error of one evaluation of one equation

\* one step with (delayed) input u: [y, ey, s]
StepD(s, u) ==
  LET v  == NRnd(NSub(u, NDot(s.a, s.v)))
      ev == NRnd(NAdd(NDot(Abs2(s.a), s.ev), NMul(G(s), NAdd(NAbs(u), NDot(Abs2(s.a), Abs2(s.v))))))
      w  == <<v>> \o SubSeq(s.v, 1, s.n - 1)
      ew == <<ev>> \o SubSeq(s.ev, 1, s.n - 1)
  IN [y |-> NDot(s.b, w), ey |-> NAdd(NDot(Abs2(s.b), ew), NMul(G(s), NDot(Abs2(s.b), Abs2(w)))), s |-> [s EXCEPT !.v = w, !.ev = ew]]
Xs(st) == [j \in 1..Len(st) |-> st[j].x]
Exs(st) == [j \in 1..Len(st) |-> st[j].ex]
StepC(s, u) ==
  LET xs == Xs(s.st) es == Exs(s.st)
      d(j)  == IF j = 1 THEN NSub(u, NDot(s.a, xs)) ELSE xs[j - 1]
      ed(j) == IF j = 1 THEN NAdd(NDot(Abs2(s.a), es), NMul(G(s), NAdd(NAbs(u), NDot(Abs2(s.a), Abs2(xs))))) ELSE es[j - 1]
      Adv(j) == LET q == s.st[j] dj == d(j) ej == ed(j) h == NAbs(s.dt) IN
                [x |-> NRnd(NAdd(q.x, NMul(s.dt, IntRule(s.im, dj, q.p, q.r)))), p |-> NRnd(dj), r |-> q.p,
                 ex |-> NRnd(NSum(<<q.ex, NMul(h, IntRule(s.im, ej, q.ep, q.er)),
                                    NMul(G(s), NAdd(NAbs(q.x), NMul(h, IntRule(s.im, NAbs(dj), NAbs(q.p), NAbs(q.r)))))>>)),
                 ep |-> NRnd(ej), er |-> q.ep]
      st2 == [j \in 1..s.n |-> Adv(j)]
      c == [j \in 1..s.n |-> NSub(s.b[j], NMul(s.a[j], s.b0))]
      m == [j \in 1..s.n |-> NAdd(NAbs(s.b[j]), NAbs(NMul(s.a[j], s.b0)))]
  IN [y |-> NAdd(NDot(c, Xs(st2)), NMul(s.b0, u)),
      ey |-> NSum(<<NDot(m, Exs(st2)), NMul(G(s), NDot(m, Abs2(Xs(st2)))), NMul(G(s), NAbs(NMul(s.b0, u)))>>),
      s |-> [s EXCEPT !.st = st2]]
(* The observable canonical form of the same transfer function: from zero   *)
(* states the outputs are the same, whatever the rule (LTIMC: SameOutputs). *)
Observable(s) == [s EXCEPT !.kind = "o"]
StepO(s, u) ==
  LET x1 == s.st[1].x e1 == s.st[1].ex
      nx(j)  == IF j < s.n THEN s.st[j + 1].x ELSE "0"
      ne(j)  == IF j < s.n THEN s.st[j + 1].ex ELSE "0"
      c(j)   == NMul(NSub(s.b[j], NMul(s.a[j], s.b0)), u)
      cm(j)  == NMul(NAdd(NAbs(s.b[j]), NAbs(NMul(s.a[j], s.b0))), NAbs(u))
      d(j)   == NSum(<<NNeg(NMul(s.a[j], x1)), nx(j), c(j)>>)
      ed(j)  == NSum(<<NMul(NAbs(s.a[j]), e1), ne(j), NMul(G(s), NSum(<<NAbs(NMul(s.a[j], x1)), NAbs(nx(j)), cm(j)>>))>>)
      Adv(j) == LET q == s.st[j] dj == d(j) ej == ed(j) h == NAbs(s.dt) IN
                [x |-> NRnd(NAdd(q.x, NMul(s.dt, IntRule(s.im, dj, q.p, q.r)))), p |-> NRnd(dj), r |-> q.p,
                 ex |-> NRnd(NSum(<<q.ex, NMul(h, IntRule(s.im, ej, q.ep, q.er)),
                                    NMul(G(s), NAdd(NAbs(q.x), NMul(h, IntRule(s.im, NAbs(dj), NAbs(q.p), NAbs(q.r)))))>>)),
                 ep |-> NRnd(ej), er |-> q.ep]
      st2 == [j \in 1..s.n |-> Adv(j)]
  IN [y |-> NAdd(st2[1].x, NMul(s.b0, u)),
      ey |-> NAdd(st2[1].ex, NMul(G(s), NAdd(NAbs(st2[1].x), NAbs(NMul(s.b0, u))))),
      s |-> [s EXCEPT !.st = st2]]
StepL(s, u) == CASE s.kind = "d" -> StepD(s, u) [] s.kind = "c" -> StepC(s, u) [] s.kind = "o" -> StepO(s, u)
\* initial states; <<>> stands for all zero
WithStates(s, xi) ==
  IF s.kind = "d" THEN [s EXCEPT !.v = IF xi = <<>> THEN Zeros(s.n) ELSE xi, !.ev = Zeros(s.n)]
  ELSE [s EXCEPT !.st = IF xi = <<>> THEN Z0(s.n) ELSE [j \in 1..s.n |-> [Z0(1)[1] EXCEPT !.x = xi[j], !.p = xi[j], !.r = xi[j]]]]
\* input delay line (newest first, empty when there is none) and output limits
Delayed(dl, u) == IF dl = <<>> THEN [u |-> u, dl |-> dl] ELSE LET q == <<u>> \o SubSeq(dl, 1, Len(dl) - 1) IN [u |-> q[Len(q)], dl |-> q]
Limit(lim, y) == IF lim = <<>> THEN y ELSE NClamp(y, lim[1], lim[2])
=============================================================================
