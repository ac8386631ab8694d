------------------------------ MODULE FISTrace ------------------------------
(* Traces of fis::instance / fis::system against FIS.                        *)
EXTENDS FIS, TraceBase
VARIABLES i, c, io, mfs, fx, ws, out
\* c: configuration; io: [in, out] ranges and values; mfs: [in, out]; fx: degrees after fuzzify; ws: rule strengths; out: crisp outputs
vars == <<i, c, io, mfs, fx, ws, out>>
NoMF == [shape |-> -1, h |-> "0", p |-> <<>>]
Unset == [up |-> FALSE]
Fresh(e) == [up |-> TRUE, type |-> e.type, ni |-> e.ni, no |-> e.no, nmi |-> e.nmi, nmo |-> e.nmo, nr |-> e.nr, pts |-> e.pts,
             parsed |-> Parse(e.rules, e.ni, e.no), and |-> 0, or |-> 2, imp |-> 0, agg |-> 2,
             m |-> IF e.type = 0 THEN 0 ELSE 5, wt |-> <<>>, last |-> -1, reg |-> {}]
\* an instance starts unconfigured when its setup is refused; a later setup replaces everything
Setup(e) == /\ e.ok = (e.valid /\ e.type \in 0..2 /\ e.ni > 0 /\ e.no > 0 /\ e.nmi > 0 /\ e.nmo > 0 /\ e.nr > 0)
            /\ e.ok \/ e.op = "new"
            /\ e.pts = 100
            /\ c' = IF e.ok THEN Fresh(e) ELSE Unset
            /\ io' = [in |-> [k \in 1..e.ni |-> [lo |-> "-1", hi |-> "1", x |-> "0"]], out |-> [k \in 1..e.no |-> [lo |-> "-1", hi |-> "1", set |-> FALSE]]]
            /\ mfs' = [in |-> [k \in 1..e.nmi |-> NoMF], out |-> [k \in 1..e.nmo |-> NoMF]]
            /\ fx' = [k \in 1..e.nmi |-> [v |-> "0", t |-> "0"]]
            /\ ws' = <<>> /\ out' = [k \in 1..e.no |-> "0"]
Inside(t, n) == c.up /\ t >= 0 /\ t < n
Range(e) ==
  LET good == Inside(e.t, IF e.op = "in" THEN Len(io.in) ELSE Len(io.out)) IN
  /\ e.ok = good
  /\ io' = IF ~good THEN io
           ELSE IF e.op = "in" THEN [io EXCEPT !.in[e.t + 1].lo = e.lo, !.in[e.t + 1].hi = e.hi]
           ELSE [io EXCEPT !.out[e.t + 1] = [lo |-> e.lo, hi |-> e.hi, set |-> TRUE]]
  /\ UNCHANGED <<c, mfs, fx, ws, out>>
SetMF(e) ==
  LET inp == e.op = "imf"
      good == /\ Inside(e.io, IF inp THEN c.ni ELSE c.no) /\ Inside(e.mf, IF inp THEN c.nmi ELSE c.nmo) /\ e.shape < 28
      m == [shape |-> e.shape, p |-> e.p, h |-> IF (~inp /\ c.type # 0) THEN "1" ELSE IF IsNum(e.h) THEN U01(e.h) ELSE "0", io |-> e.io]
  IN /\ e.ok = good
     /\ mfs' = IF ~good THEN mfs ELSE IF inp THEN [mfs EXCEPT !.in[e.mf + 1] = m] ELSE [mfs EXCEPT !.out[e.mf + 1] = m]
     /\ fx' = IF good /\ inp THEN [fx EXCEPT ![e.mf + 1] = [v |-> "0", t |-> "0"]] ELSE fx
     /\ UNCHANGED <<c, io, ws, out>>
Par(e) ==
  LET good == \/ e.p \in {0, 2} /\ e.v \in {0, 1}      \* implication, AND
              \/ e.p = 1 /\ e.v \in 2..4               \* aggregation
              \/ e.p = 3 /\ e.v \in {2, 3}             \* OR
  IN /\ e.ok = good
     /\ c' = IF ~good \/ ~c.up THEN c
             ELSE CASE e.p = 0 -> [c EXCEPT !.imp = e.v] [] e.p = 1 -> [c EXCEPT !.agg = e.v]
                    [] e.p = 2 -> [c EXCEPT !.and = e.v] [] e.p = 3 -> [c EXCEPT !.or = e.v]
     /\ UNCHANGED <<io, mfs, fx, ws, out>>
Method(e) ==
  LET good == c.up /\ \/ c.type = 0 /\ e.m \in 0..4
                      \/ c.type = 1 /\ e.m \in {5, 6}
                      \/ c.type = 2 /\ e.m = 5
  IN /\ c.up => e.ok = good
     /\ c' = IF good THEN [c EXCEPT !.m = e.m] ELSE c
     /\ UNCHANGED <<io, mfs, fx, ws, out>>
Weights(e) == /\ e.ok = (e.w # <<>>)
              /\ c' = IF e.ok /\ c.up THEN [c EXCEPT !.wt = e.w] ELSE c
              /\ UNCHANGED <<io, mfs, fx, ws, out>>
Store(e) == /\ e.ok = (c.up /\ ~e.nul /\ e.n >= c.pts)
            /\ c' = IF e.ok THEN [c EXCEPT !.reg = @ \cup {e.t}] ELSE c
            /\ UNCHANGED <<io, mfs, fx, ws, out>>
Input(e) == /\ e.ok = Inside(e.t, Len(io.in))
            /\ io' = IF e.ok THEN [io EXCEPT !.in[e.t + 1].x = e.x] ELSE io
            /\ UNCHANGED <<c, mfs, fx, ws, out>>
Select(e) == /\ c' = IF c.up /\ e.t >= 0 /\ e.t < c.ni THEN [c EXCEPT !.last = e.t] ELSE c
             /\ UNCHANGED <<io, mfs, fx, ws, out>>
Put(e) == /\ io' = IF c.up /\ c.last >= 0 THEN [io EXCEPT !.in[c.last + 1].x = e.x] ELSE io
          /\ UNCHANGED <<c, mfs, fx, ws, out>>
\* an input that is not a number is not clamped to one (precondition: crisp inputs are numbers)
Fuzzify(e) ==
  /\ e.ok = c.up
  /\ LET in2 == [k \in 1..Len(io.in) |-> [io.in[k] EXCEPT !.x = NClamp(@, io.in[k].lo, io.in[k].hi)]] IN
     IF ~c.up THEN UNCHANGED <<io, fx>>
     ELSE /\ io' = [io EXCEPT !.in = in2]
          /\ fx' = [k \in 1..c.nmi |-> IF mfs.in[k].shape < 0 THEN [v |-> "0", t |-> "0"] ELSE Member(mfs.in[k], in2[mfs.in[k].io + 1].x)]
  /\ UNCHANGED <<c, mfs, ws, out>>
WeightOf(k) == IF c.wt = <<>> THEN "1" ELSE c.wt[k]
Infer(e) ==
  /\ e.ok = (c.up /\ c.parsed.ok /\ Len(c.parsed.rules) = c.nr)
  /\ IF ~e.ok THEN UNCHANGED ws
     ELSE LET s == [k \in 1..c.nr |-> Strength(c.parsed.rules[k], fx, c, WeightOf(k))] IN
          IF e.seen
          THEN /\ \A k \in 1..c.nr : IsNum(e.w[k]) /\ NLe("0", e.w[k]) /\ NLe(e.w[k], "1") /\ NNear(e.w[k], s[k].v, s[k].t)
               /\ ws' = e.w
          ELSE ws' = [k \in 1..c.nr |-> s[k].v]
  /\ UNCHANGED <<c, io, mfs, fx, out>>
Region(g) ==   \* the recorded aggregated region of output g.t is the aggregation of the fired rules
  LET o == io.out[g.t + 1] top == NMax(NAbs(o.lo), NAbs(o.hi)) IN
  \A k \in 1..c.pts :
     /\ NNear(g.x[k], Grid(k, c.pts, o.lo, o.hi), NMul(NPow2(-19), top))
     /\ IsNum(g.y[k]) /\ NLe("0", g.y[k]) /\ NLe(g.y[k], "1")
     /\ LET y == Aggregated(c.parsed.rules, ws, mfs.out, c, g.t, g.x[k]) IN NNear(g.y[k], y.v, y.t)
\* without the recorded region: the specified one on the exact grid, centroid only and coarse
Unseen(t, v) ==
  LET o == io.out[t + 1]
      xs == [k \in 1..c.pts |-> Grid(k, c.pts, o.lo, o.hi)]
      ys == [k \in 1..c.pts |-> NRnd(Aggregated(c.parsed.rules, ws, mfs.out, c, t, xs[k]).v)]
      area == NSum(ys)
  IN (c.m = 0 /\ NLt("1e-2", area)) => NNear(v, NClamp(NDiv(NDot(xs, ys), area), o.lo, o.hi), NMul("0.01", NSub(o.hi, o.lo)))
Crisp(e) ==
  \A t \in 0..c.no-1 :
     LET o == io.out[t + 1] v == e.v[t + 1] IN
     /\ o.set                                                \* precondition: the output was set up
     /\ IsNum(v) /\ NLe(o.lo, v) /\ NLe(v, o.hi)
     /\ IF c.type = 0
        THEN IF t \in c.reg
             THEN \E g \in {e.reg[j] : j \in 1..Len(e.reg)} : g.t = t /\ Region(g) /\ DefuzzOK(c.m, g.x, g.y, o.lo, o.hi, v)
             ELSE Unseen(t, v)
        ELSE LET k == Contribs(c.parsed.rules, c.nr, t, ws)
                 w == [j \in 1..Len(k) |-> k[j][2]]
                 z == [j \in 1..Len(k) |-> IF c.type = 1 THEN SugenoV(mfs.out[k[j][1] + 1], [q \in 1..c.ni |-> io.in[q].x])
                                           ELSE TsukV(mfs.out[k[j][1] + 1], w[j], o.lo, o.hi)]
             IN WeightedOK(c.m, z, w, o.lo, o.hi, v)
Defuzz(e) == /\ e.ok = c.up
             /\ IF c.up THEN Crisp(e) /\ out' = e.v ELSE UNCHANGED out
             /\ UNCHANGED <<c, io, mfs, fx, ws>>
Get(e) == /\ e.ok = Inside(e.t, Len(io.out))
          /\ IF e.ok THEN NEq(e.v, out[e.t + 1]) ELSE NEq(e.v, "12345")
          /\ UNCHANGED <<c, io, mfs, fx, ws, out>>
Idx(e) == /\ c.up
          /\ IF Inside(e.t, c.no) THEN NEq(e.v, out[e.t + 1])
             ELSE \E k \in 1..c.no : NEq(e.v, out[k])        \* other tags: still an output of this system
          /\ UNCHANGED <<c, io, mfs, fx, ws, out>>
Init == i = 0 /\ c = Unset /\ io = <<>> /\ mfs = <<>> /\ fx = <<>> /\ ws = <<>> /\ out = <<>>
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           CASE e.op \in {"new", "setup"} -> Setup(e)
             [] e.op \in {"in", "out"} -> Range(e)
             [] e.op \in {"imf", "omf"} -> SetMF(e)
             [] e.op = "par" -> Par(e)
             [] e.op = "method" -> Method(e)
             [] e.op = "weights" -> Weights(e)
             [] e.op = "reweigh" -> c' = [c EXCEPT !.wt = e.w] /\ UNCHANGED <<io, mfs, fx, ws, out>>
             [] e.op = "store" -> Store(e)
             [] e.op = "set" -> Input(e)
             [] e.op = "sel" -> Select(e)
             [] e.op = "put" -> Put(e)
             [] e.op = "fuz" -> Fuzzify(e)
             [] e.op = "inf" -> Infer(e)
             [] e.op = "def" -> Defuzz(e)
             [] e.op = "get" -> Get(e)
             [] e.op = "idx" -> Idx(e)
Spec == Init /\ [][Next]_vars
=============================================================================
