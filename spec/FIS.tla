-------------------------------- MODULE FIS --------------------------------
(***************************************************************************)
(* Fuzzy inference systems (qlibs::fis).                                    *)
(*                                                                          *)
(*  - the membership functions and the inverses used by Tsukamoto systems,  *)
(*  - the rule language (a token stream) and its meaning,                   *)
(*  - Mamdani aggregation over the evaluation grid and its five             *)
(*    defuzzification methods, Sugeno and Tsukamoto weighted outputs.       *)
(* Numbers are exact (Num); a shape evaluates to [v |-> value, t |-> bound  *)
(* on the error a binary32 evaluation may have].                            *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

U01(y) == NClamp(y, "0", "1")
Half == "1/2"

-----------------------------------------------------------------------------
(* Membership functions.  p is the sequence of parameters.                  *)
Ramp(x, a, b) == IF NEq(a, b) THEN (IF NLt(x, a) THEN "0" ELSE "1") ELSE U01(NDiv(NSub(x, a), NSub(b, a)))
Fall(x, a, b) == IF NEq(a, b) THEN (IF NLt(a, x) THEN "0" ELSE "1") ELSE U01(NDiv(NSub(b, x), NSub(b, a)))
\* a trapezoid is 1 on [b,c] whatever its flanks are: vertical flanks (a = b, c = d) belong to the plateau
Trap(x, a, b, c, d) == IF NLe(b, x) /\ NLe(x, c) THEN "1"
                       ELSE IF NLe(x, a) \/ NLe(d, x) THEN "0"
                       ELSE IF NLt(x, b) THEN Ramp(x, a, b) ELSE Fall(x, c, d)
ExpNeg(t) == IF NLt("200", t) THEN "0" ELSE NExp(NNeg(NRnd(t)))     \* e^-t, t >= -200
Gauss(x, s, m) == ExpNeg(NDiv(NSq(NDiv(NSub(x, m), s)), "2"))
Sig(x, a, m) == LET t == NMul(a, NSub(x, m)) IN
                IF NLt(t, "-100") THEN "0" ELSE IF NLt("100", t) THEN "1" ELSE NDiv("1", NAdd("1", NExp(NNeg(NRnd(t)))))
SShape(x, a, b) == IF NLe(x, a) THEN "0" ELSE IF NLe(b, x) THEN "1"
                   ELSE IF NLe(x, NDiv(NAdd(a, b), "2")) THEN NMul("2", NSq(NDiv(NSub(x, a), NSub(b, a))))
                   ELSE NSub("1", NMul("2", NSq(NDiv(NSub(x, b), NSub(b, a)))))
ZShape(x, a, b) == NSub("1", SShape(x, a, b))
\* z >= 0 to the power e, as 1/(1+z^e)
Bell(x, a, b, m) == LET z == NAbs(NDiv(NSub(x, m), a)) IN
                    IF NEq(z, "0") THEN "1"
                    ELSE LET l == NMul(NMul("2", b), NLn(z)) IN
                         IF NLt("100", l) THEN "0" ELSE IF NLt(l, "-100") THEN "1" ELSE NDiv("1", NAdd("1", NExp(NRnd(l))))
Concave(x, i, e) == IF NLe(i, e) /\ NLt(x, e) THEN NDiv(NSub(e, i), NSub(NSub(NMul("2", e), i), x))
                    ELSE IF NLt(e, i) /\ NLt(e, x) THEN NDiv(NSub(i, e), NAdd(NSub(i, NMul("2", e)), x))
                    ELSE "1"
Cosine(x, c, w) == IF NLt(x, NSub(c, NDiv(w, "2"))) \/ NLt(NAdd(c, NDiv(w, "2")), x) THEN "0"
                   ELSE NDiv(NAdd("1", NCos(NDiv(NMul(NMul("2", NPi), NSub(x, c)), w))), "2")

\* shapes, in the order of the enumeration shapeMF
ShapeV(s, x, p) ==
  CASE s = 0 -> p[1]                                                           \* user function used here: constant
    [] s = 1 -> Trap(x, p[1], p[2], p[2], p[3])
    [] s = 2 -> Trap(x, p[1], p[2], p[3], p[4])
    [] s = 3 -> Bell(x, p[1], p[2], p[3])
    [] s = 4 -> Gauss(x, p[1], p[2])
    [] s = 5 -> NMul(IF NLe(x, p[2]) THEN Gauss(x, p[1], p[2]) ELSE "1", IF NLe(p[4], x) THEN Gauss(x, p[3], p[4]) ELSE "1")
    [] s = 6 -> Sig(x, p[1], p[2])
    [] s = 7 -> NAbs(NSub(Sig(x, p[1], p[2]), Sig(x, p[3], p[4])))
    [] s = 8 -> NMul(Sig(x, p[1], p[2]), Sig(x, p[3], p[4]))
    [] s = 9 -> NMul(SShape(x, p[1], p[2]), ZShape(x, p[3], p[4]))
    [] s = 10 -> SShape(x, p[1], p[2])
    [] s = 11 -> ZShape(x, p[1], p[2])
    [] s = 12 -> IF NEq(x, p[1]) THEN "1" ELSE "0"
    [] s = 13 -> Concave(x, p[1], p[2])
    [] s = 14 -> ExpNeg(NAbs(NDiv(NMul("10", NSub(x, p[2])), p[1])))
    [] s = 15 -> IF NLt(p[2], p[1]) THEN "0" ELSE Ramp(x, p[1], p[2])
    [] s = 16 -> IF NLt(p[2], p[1]) THEN "0" ELSE IF NEq(p[1], p[2]) THEN (IF NLt(x, p[1]) THEN "1" ELSE "0") ELSE Fall(x, p[1], p[2])
    [] s = 17 -> IF NLe(p[1], x) /\ NLe(x, p[2]) THEN "1" ELSE "0"
    [] s = 18 -> Cosine(x, p[1], p[2])
    [] s = 19 -> p[1]
ShapeT(s) == CASE s \in {0, 19, 12, 17} -> "0"
               [] s \in {1, 2, 13, 15, 16} -> NPow2(-20)
               [] s \in {9, 10, 11} -> NPow2(-19)
               [] s = 18 -> "0.0012"
               [] OTHER -> "0.00002"
\* a cosine set is exactly nothing outside its support, wherever the edge is not in doubt
Outside(s, x, p) == s = 18 /\ NLt(NAdd(NMul("0.50001", p[2]), NMul("1e-5", NAbs(p[1]))), NAbs(NSub(x, p[1])))
\* conditioning: how far a relative input error of 2^-22 of the largest parameter can move a steep shape
Member(m, x) == IF m.shape < 0 THEN [v |-> "0", t |-> "0"]                      \* never configured
                ELSE [v |-> NMul(m.h, ShapeV(m.shape, x, m.p)), t |-> NAdd(IF Outside(m.shape, x, m.p) THEN "0" ELSE ShapeT(m.shape), NMul(NPow2(-22), NAbs(NMul(m.h, ShapeV(m.shape, x, m.p)))))]

(* Consequents of Sugeno systems: functions of the inputs xs.               *)
SugenoV(m, xs) == CASE m.shape \in {0, 19} -> [v |-> NCanon(m.p[1]), t |-> "0"]
                    [] m.shape = 20 -> [v |-> NAdd(NDot(xs, m.p), m.p[Len(xs) + 1]),
                                        t |-> NMul(NPow2(-20), NAdd(NDot([k \in 1..Len(xs) |-> NAbs(xs[k])], [k \in 1..Len(m.p) |-> NAbs(m.p[k])]), NAbs(m.p[Len(xs) + 1])))]
(* Consequents of Tsukamoto systems: the inverse of a monotonic shape,      *)
(* taken at the strength 0 < w <= 1 of the rule.                             *)
TsukV(m, w, lo, hi) ==
  LET a == m.p[1]  b == m.p[2]  d == NSub(b, a)
      sc == NMul(NPow2(-18), NAdd(NAbs(a), NAbs(b)))
      rt(z) == NMul(d, NSqrt(NDiv(z, "2")))
  IN
  CASE m.shape \in {0, 19} -> [v |-> NCanon(a), t |-> "0"]
    [] m.shape \in {21, 27} -> [v |-> NAdd(a, NMul(d, w)), t |-> sc]
    [] m.shape = 22 -> [v |-> NSub(b, NMul(d, w)), t |-> sc]
    [] m.shape = 23 -> [v |-> NAdd(NDiv(NSub(a, b), w), NSub(NMul("2", b), a)), t |-> NAdd(sc, NMul(NPow2(-20), NAbs(NDiv(d, w))))]
    [] m.shape = 24 -> IF NEq(w, "1") THEN [v |-> IF NLe("0", a) THEN NCanon(hi) ELSE NCanon(lo), t |-> "0"]
                       ELSE LET q == NSub(NDiv("1", w), "1") l == NDiv(NLn(q), a) IN
                            [v |-> NSub(b, l), t |-> NAdd(sc, NAdd(NMul(NPow2(-19), NAbs(l)), NAbs(NDiv(NDiv(NMul(NPow2(-21), NDiv("1", w)), q), a))))]
    [] m.shape = 25 -> [v |-> IF NLe(w, Half) THEN NAdd(a, rt(w)) ELSE NSub(b, rt(NSub("1", w))), t |-> NAdd(sc, NMul("0.0001", NAbs(d)))]
    [] m.shape = 26 -> [v |-> IF NLe(w, Half) THEN NSub(b, rt(w)) ELSE NAdd(a, rt(NSub("1", w))), t |-> NAdd(sc, NMul("0.0001", NAbs(d)))]

-----------------------------------------------------------------------------
(* The rule language.  Tokens:                                              *)
RBEGIN == -128   REND == -127   TAND == -126   TOR == -125   TTHEN == -124
(*   BEGIN { input, +-(mf+1), (AND|OR) ... THEN, output, +-(mf+1) [AND ...] } END *)
Term(tok, i) == [who |-> tok[i], mf |-> (IF tok[i + 1] < 0 THEN -tok[i + 1] ELSE tok[i + 1]) - 1, neg |-> tok[i + 1] < 0]
BadRules == [ok |-> FALSE, rules |-> <<>>]
RECURSIVE Ants(_, _, _, _)
\* antecedents from position i: [ok, next, seq of terms, seq of connectors between them]
Ants(tok, i, ni, acc) ==
  IF tok[i] < 0 \/ tok[i] >= ni THEN [ok |-> FALSE]
  ELSE LET t == Append(acc.t, Term(tok, i)) c == tok[i + 2] IN
       IF c = TTHEN THEN [ok |-> TRUE, next |-> i + 3, t |-> t, c |-> acc.c]
       ELSE IF c \in {TAND, TOR} THEN Ants(tok, i + 3, ni, [t |-> t, c |-> Append(acc.c, c)])
       ELSE [ok |-> FALSE]
RECURSIVE Cons(_, _, _, _)
Cons(tok, i, no, acc) ==
  LET a == Append(acc, Term(tok, i)) IN
  IF no > 1 /\ tok[i + 2] = TAND THEN Cons(tok, i + 3, no, a) ELSE [next |-> i + 2, k |-> a]
RECURSIVE ParseFrom(_, _, _, _, _)
ParseFrom(tok, i, ni, no, acc) ==
  IF tok[i] = REND THEN [ok |-> TRUE, rules |-> acc]
  ELSE LET a == Ants(tok, i, ni, [t |-> <<>>, c |-> <<>>]) IN
       IF ~a.ok THEN [ok |-> FALSE, rules |-> acc]
       ELSE LET k == Cons(tok, a.next, no, <<>>) IN
            ParseFrom(tok, k.next, ni, no, Append(acc, [t |-> a.t, c |-> a.c, k |-> k.k]))
Parse(tok, ni, no) == IF tok[1] # RBEGIN THEN BadRules ELSE ParseFrom(tok, 2, ni, no, <<>>)

(* operators of the configuration: 0 min, 1 product, 2 max, 3 probabilistic or, 4 bounded sum *)
Op(k, a, b) == CASE k = 0 -> U01(NMin(a, b))
                 [] k = 1 -> U01(NMul(a, b))
                 [] k = 2 -> U01(NMax(a, b))
                 [] k = 3 -> U01(NSub(NAdd(a, b), NMul(a, b)))
                 [] k = 4 -> U01(NAdd(a, b))

\* degree of a term, given the degrees fx of all input sets
Degree(t, fx) == LET y == U01(fx[t.mf + 1].v) IN [v |-> IF t.neg THEN NSub("1", y) ELSE y, t |-> fx[t.mf + 1].t]
RECURSIVE FoldAnts(_, _, _, _)
FoldAnts(r, fx, c, k) ==
  IF k = 1 THEN Degree(r.t[1], fx)
  ELSE LET l == FoldAnts(r, fx, c, k - 1) d == Degree(r.t[k], fx) IN
       [v |-> Op(IF r.c[k - 1] = TAND THEN c.and ELSE c.or, l.v, d.v), t |-> NAdd(NAdd(l.t, d.t), NPow2(-22))]
\* strength of rule number k: connectors apply from left to right; weighted
Strength(r, fx, c, weight) == LET s == FoldAnts(r, fx, c, Len(r.t)) IN
  [v |-> NMul(s.v, U01(weight)), t |-> NAdd(s.t, NPow2(-22))]

-----------------------------------------------------------------------------
(* Mamdani: degree of output o at abscissa x, from rule strengths w.        *)
RECURSIVE AggTo(_, _, _, _, _, _, _)
AggCons(k, w, mfs, c, o, x, y) ==   \* one consequent
  IF k.who # o \/ NLe(w, "0") THEN y
  ELSE LET d == Member(mfs[k.mf + 1], x)
           v == IF k.neg THEN NSub("1", d.v) ELSE d.v
       IN [v |-> Op(c.agg, y.v, Op(c.imp, w, v)), t |-> NAdd(y.t, NAdd(d.t, NPow2(-21)))]
RECURSIVE ConsTo(_, _, _, _, _, _, _, _)
ConsTo(ks, n, w, mfs, c, o, x, y) == IF n = 0 THEN y ELSE AggCons(ks[n], w, mfs, c, o, x, ConsTo(ks, n - 1, w, mfs, c, o, x, y))
AggTo(rules, n, ws, mfs, c, o, x) ==
  IF n = 0 THEN [v |-> "0", t |-> "0"]
  ELSE ConsTo(rules[n].k, Len(rules[n].k), ws[n], mfs, c, o, x, AggTo(rules, n - 1, ws, mfs, c, o, x))
Aggregated(rules, ws, mfs, c, o, x) == AggTo(rules, Len(rules), ws, mfs, c, o, x)
Grid(k, n, lo, hi) == NAdd(lo, NMul(NSub(NOf(k), Half), NDiv(NSub(hi, lo), NOf(n))))      \* k = 1..n

\* defuzzification of the sampled region xs, ys (exact values), the admissible crisp values
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN "0" ELSE NAdd(SumTo(s, k - 1), s[k])
Peak(ys) == NMaxSeq(ys)
FirstPeak(ys) == CHOOSE k \in 1..Len(ys) : NEq(ys[k], Peak(ys)) /\ \A j \in 1..k-1 : ~NEq(ys[j], Peak(ys))
LastPeak(ys) == CHOOSE k \in 1..Len(ys) : NEq(ys[k], Peak(ys)) /\ \A j \in k+1..Len(ys) : ~NEq(ys[j], Peak(ys))
RECURSIVE RunEnd(_, _, _)
RunEnd(ys, k, m) == IF k < Len(ys) /\ NEq(ys[k + 1], m) THEN RunEnd(ys, k + 1, m) ELSE k
DefuzzOK(m, xs, ys, lo, hi, v) ==
  LET top == NMax(NAbs(lo), NAbs(hi))
      area == SumTo(ys, Len(ys))
      Is(z, tol) == NNear(v, NClamp(z, lo, hi), tol)
  IN CASE NLt(area, "1e-30") /\ m = 0 -> TRUE
       [] m = 0 -> Is(NDiv(NDot(xs, ys), area), NMul(NPow2(-15), top))
       [] m = 1 -> \E k \in 1..Len(xs) : /\ Is(xs[k], "0")
                                         /\ LET before == SumTo(ys, k - 1) slack == NMul(NPow2(-14), area) IN
                                            /\ NLe(before, NAdd(NDiv(area, "2"), slack))
                                            /\ NLe(NSub(NDiv(area, "2"), slack), NAdd(before, ys[k]))
       [] m = 2 -> LET f == FirstPeak(ys) IN Is(NDiv(NAdd(xs[f], xs[RunEnd(ys, f, Peak(ys))]), "2"), NMul(NPow2(-21), top))
       [] m = 3 -> Is(xs[LastPeak(ys)], "0")
       [] m = 4 -> Is(xs[FirstPeak(ys)], "0")

-----------------------------------------------------------------------------
(* Sugeno and Tsukamoto: contributions of the fired rules to output o.      *)
RECURSIVE Contribs(_, _, _, _)
Contribs(rules, n, o, ws) ==   \* sequence of <<mf index, strength>>
  IF n = 0 THEN <<>>
  ELSE LET ks == SelectSeq(rules[n].k, LAMBDA k : k.who = o) IN
       Contribs(rules, n - 1, o, ws) \o (IF NLe(ws[n], "0") THEN <<>> ELSE [j \in 1..Len(ks) |-> <<ks[j].mf, ws[n]>>])
WeightedOK(method, zs, ws, lo, hi, v) ==    \* zs: [v,t] of every contribution, ws: strengths
  LET n == Len(zs)
      sw == NSum(ws)
      swz == NDot([k \in 1..n |-> zs[k].v], ws)
      big == IF n = 0 THEN "0" ELSE NMaxSeq([k \in 1..n |-> NAbs(zs[k].v)])
      tz == NDot([k \in 1..n |-> zs[k].t], ws)
      rnd == NMul(NMul(NPow2(-21), NOf(n + 1)), big)
  IN IF n = 0 THEN (method = 6 => NEq(v, NClamp("0", lo, hi)))
     ELSE IF method = 5 THEN NNear(v, NClamp(NDiv(swz, sw), lo, hi), NAdd(NDiv(tz, sw), rnd))
     ELSE NNear(v, NClamp(swz, lo, hi), NAdd(tz, NMul(rnd, NMax("1", sw))))
=============================================================================
