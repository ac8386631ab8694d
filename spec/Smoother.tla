------------------------------ MODULE Smoother ------------------------------
(***************************************************************************)
(* The smoothing filters.  A filter is a record:                            *)
(*   kind, par   the kind and its (accepted) parameters                     *)
(*   fresh       TRUE from set-up or reset until the first sample           *)
(*   k, top      samples since then, and the largest magnitude among them   *)
(*   win         the window, newest first (window filters)                  *)
(*   m           other memory                                               *)
(* Ideal(f, x, slack) is the set of outputs the definition of the filter    *)
(* admits for the next sample x; it has two elements only when an outlier   *)
(* test is within slack of its threshold.                                   *)
(***************************************************************************)
EXTENDS Num, Sequences, SequencesExt, TLC

Unit(a) == NLt("0", a) /\ NLt(a, "1")
NumAll(S) == \A a \in S : IsNum(a)
Valid(kind, p) ==
  CASE kind \in {"lpf1", "lpf2", "expw"} -> IsNum(p.a) /\ Unit(p.a)
    [] kind \in {"mwm1", "mwm2"} -> p.win /\ p.n > 0
    [] kind \in {"mor1", "mor2"} -> p.win /\ p.n > 0 /\ IsNum(p.a) /\ Unit(p.a)
    [] kind = "gmwf" -> p.win /\ p.wgt /\ p.n > 0 /\ NumAll({p.a, p.b}) /\ NLt("0", p.a) /\ NLt(p.b, NOf(p.n))
    [] kind = "klmn" -> NumAll({p.a, p.b, p.c}) /\ \A v \in {p.a, p.b, p.c} : NLt("0", v)
    [] kind = "desf" -> NumAll({p.a, p.b}) /\ Unit(p.a) /\ Unit(p.b)
    [] kind = "alnf" -> p.win /\ p.wgt /\ p.n > 0 /\ NumAll({p.a, p.b}) /\ Unit(p.a) /\ NLe("0", p.b) /\ NLt(p.b, "1")
\* parameter sets about which the documentation and the code leave both answers open
Open(kind, p) == kind = "gmwf" /\ p.win /\ p.wgt /\ p.n > 0 /\ NumAll({p.a, p.b}) /\ (NLe(p.b, "0") \/ NLe(NOf(p.n - 1), p.b)) /\ NLt(p.b, NOf(p.n))

GaussRaw(sg, c, n) == [j \in 1..n |-> LET d == NSub(NOf(j - 1), c) IN NExp(NNeg(NDiv(NSq(d), NMul("2", NSq(sg)))))]
Gauss(sg, c, n) == LET g == GaussRaw(sg, c, n) s == NSum(g) IN [j \in 1..n |-> NRnd(NDiv(g[j], s))]

Configured(kind, p) ==
  [kind |-> kind, par |-> p, fresh |-> TRUE, k |-> 0, top |-> "0", win |-> <<>>,
   m |-> IF kind = "gmwf" THEN [kern |-> Gauss(p.a, p.b, p.n)] ELSE <<>>]
ResetOf(f) == [f EXCEPT !.fresh = TRUE, !.k = 0, !.top = "0", !.win = <<>>, !.m = IF f.kind = "gmwf" THEN f.m ELSE <<>>]

\* memory as seen by sample x: the first sample after a reset fills it
Fill(n, x) == [j \in 1..n |-> x]
Mem(f, x) ==
  IF ~f.fresh THEN f.m
  ELSE CASE f.kind = "lpf1" -> [y1 |-> x]
         [] f.kind = "lpf2" -> [y1 |-> x, y2 |-> x, x1 |-> x, x2 |-> x]
         [] f.kind = "expw" -> [y1 |-> x, w |-> "1"]
         [] f.kind = "klmn" -> [y1 |-> x, p |-> f.par.c]
         [] f.kind = "desf" -> [lt |-> x, bt |-> x]
         [] f.kind = "alnf" -> [w |-> Fill(f.par.n, NDiv("1", NOf(f.par.n))), w1 |-> Fill(f.par.n, NDiv("1", NOf(f.par.n)))]
         [] OTHER -> f.m
Win(f, x) == IF f.fresh THEN Fill(f.par.n, x) ELSE f.win
Push(w, x) == <<x>> \o SubSeq(w, 1, Len(w) - 1)
Mean(w) == NDiv(NSum(w), NOf(Len(w)))

Lpf2C(a) == LET aa == NSq(a) p == NSqrt(NMul("2", a)) r == NSum(<<"1", p, aa>>)
            IN [k |-> NDiv(aa, r), a1 |-> NDiv(NMul("2", NSub(aa, "1")), r), a2 |-> NDiv(NAdd(NSub("1", p), aa), r)]
KlmnP(f, m) == NAdd(m.p, f.par.a)                                 \* predicted covariance
KlmnG(f, m) == NDiv(KlmnP(f, m), NAdd(f.par.b, KlmnP(f, m)))      \* gain
DesfL(f, m, x) == NAdd(NMul(NSub("1", f.par.a), m.lt), NMul(f.par.a, x))
DesfB(f, m, x) == NAdd(NMul(NSub("1", f.par.b), m.bt), NMul(f.par.b, NSub(DesfL(f, m, x), m.lt)))
Momentum(f) == f.par.w1 /\ NLt("0", f.par.b)

Ideal(f, x, slack) ==
  LET m == Mem(f, x) IN
  CASE f.kind = "lpf1" -> {NAdd(x, NMul(f.par.a, NSub(m.y1, x)))}
    [] f.kind = "lpf2" -> LET c == Lpf2C(f.par.a)
                          IN {NSub(NMul(c.k, NSum(<<x, NMul("2", m.x1), m.x2>>)), NAdd(NMul(c.a1, m.y1), NMul(c.a2, m.y2)))}
    [] f.kind \in {"mwm1", "mwm2"} -> {Mean(Push(Win(f, x), x))}
    [] f.kind \in {"mor1", "mor2"} -> LET mu == Mean(Win(f, x))
                                          d == NSub(NAbs(NSub(mu, x)), NMul(f.par.a, NAbs(mu)))
                                      IN (IF NLe(d, slack) THEN {NCanon(x)} ELSE {}) \cup (IF (NLe(NNeg(slack), d) /\ ~NEq(d, "0")) \/ NLt("0", d) THEN {mu} ELSE {})
    [] f.kind = "gmwf" -> {NDot(f.m.kern, Push(Win(f, x), x))}
    [] f.kind = "expw" -> LET iw == NDiv("1", NAdd(NMul(f.par.a, m.w), "1")) IN {NAdd(NMul(NSub("1", iw), m.y1), NMul(iw, x))}
    [] f.kind = "klmn" -> {NAdd(m.y1, NMul(KlmnG(f, m), NSub(x, m.y1)))}
    [] f.kind = "desf" -> {NAdd(DesfL(f, m, x), NMul(NOf(f.par.n), DesfB(f, m, x)))}
    [] f.kind = "alnf" -> {NDot(m.w, Push(Win(f, x), x))}

\* the filter after sample x was answered with y
After(f, x, y) ==
  LET m == Mem(f, x)
      m2 == CASE f.kind = "lpf1" -> [y1 |-> y]
              [] f.kind = "lpf2" -> [y1 |-> y, y2 |-> m.y1, x1 |-> x, x2 |-> m.x1]
              [] f.kind = "expw" -> [y1 |-> y, w |-> NRnd(NAdd(NMul(f.par.a, m.w), "1"))]
              [] f.kind = "klmn" -> [y1 |-> y, p |-> NRnd(NMul(NSub("1", KlmnG(f, m)), KlmnP(f, m)))]
              [] f.kind = "desf" -> [lt |-> NRnd(DesfL(f, m, x)), bt |-> NRnd(DesfB(f, m, x))]
              [] f.kind = "alnf" ->
                   LET w2 == Push(Win(f, x), x) xe == NDot(m.w, w2) e == NMul(f.par.a, NSub(x, xe))
                   IN [w |-> [j \in 1..f.par.n |-> NRnd(NSum(<<m.w[j], NMul(e, w2[j]), IF Momentum(f) THEN NMul(f.par.b, NSub(m.w[j], m.w1[j])) ELSE "0">>))],
                       w1 |-> m.w]
              [] OTHER -> f.m
      w2 == CASE f.kind \in {"mwm1", "mwm2", "gmwf", "alnf"} -> Push(Win(f, x), x)
              [] f.kind \in {"mor1", "mor2"} -> Push(Win(f, x), y)          \* the replacement enters the window
              [] OTHER -> <<>>
  IN [f EXCEPT !.fresh = FALSE, !.k = @ + 1, !.top = NMax(@, NAbs(x)), !.win = w2, !.m = m2]
=============================================================================
