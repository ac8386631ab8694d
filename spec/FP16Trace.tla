----------------------------- MODULE FP16Trace -----------------------------
(* One event carries one kind of operation on many operands (xs, ys) and the *)
(* recorded results.  The arithmetic is stateless, so the only variable is   *)
(* the position in the trace.                                                *)
EXTENDS FP16, TraceBase
VARIABLE i
All(e, P(_)) == \A k \in 1..Len(e.xs) : P(k)
B01(b) == IF b THEN "1" ELSE "0"
Arith(e) ==
  LET x(k) == e.xs[k] y(k) == e.ys[k]
      P(k) == LET z == CASE e.f = "add" -> Add(x(k), y(k))
                         [] e.f = "sub" -> Sub(x(k), y(k))
                         [] e.f = "mul" -> Mul(x(k), y(k))
                         [] e.f = "div" -> Div(x(k), y(k))
              IN NEq(e.zs[k], z) /\ NEq(e.zc[k], z) /\ NEq(e.zr[k], z)      \* a op b; a op= b (variable and result)
  IN All(e, P)
Cmp(e) ==
  LET P(k) == LET x == e.xs[k] y == e.ys[k]
              IN e.zs[k] = B01(NLt(x, y)) \o B01(NLe(x, y)) \o B01(NLt(y, x)) \o B01(NLe(y, x)) \o B01(NEq(x, y)) \o B01(~NEq(x, y))
  IN All(e, P)
Unary(e) ==
  LET P(k) == LET x == e.xs[k] r == e.zs[k]
              IN CASE e.f = "inc" -> NEq(r, Add(x, One)) /\ NEq(e.zr[k], Add(x, One)) /\ NEq(e.zc[k], Add(x, One)) /\ NEq(e.zo[k], x)
                   [] e.f = "dec" -> NEq(r, Sub(x, One)) /\ NEq(e.zr[k], Sub(x, One)) /\ NEq(e.zc[k], Sub(x, One)) /\ NEq(e.zo[k], x)
                   [] e.f = "neg" -> NEq(r, Neg(x))
                   [] e.f = "abs" -> NEq(r, Abs(x))
                   [] e.f = "floor" -> NEq(r, Floor(x))
                   [] e.f = "ceil" -> NEq(r, Ceil(x))
                   [] e.f = "round" -> NEq(r, Rounding(x))
                   [] e.f = "toint" -> NEq(r, ToInt(x))
                   [] e.f = "todouble" -> NEq(r, Real(x))
                   [] e.f = "tofloat" -> NEq(r, NF32(Real(x)))
                   [] e.f = "isovf" -> r = B01(NEq(x, Marker))
                   [] e.f = "isexpmax" -> r = B01(NEq(NAbs(x), "681391"))      \* the argument at which exp leaves the range: ln(32768)
                   [] e.f = "copy" -> NEq(r, x)
  IN All(e, P)
From(e) ==
  LET P(k) == LET v == e.xs[k] r == e.zs[k] IN
              CASE e.f = "fromint" -> NEq(r, NMul(v, One)) /\ NEq(e.zc[k], r)
                [] e.f = "fromdouble" -> NEq(r, FromReal(v)) /\ NEq(e.zc[k], r)
                \* a single-precision rounding step may move a near tie
                [] e.f = "fromfloat" -> /\ NIsInt(r) /\ NEq(e.zc[k], r)
                                        /\ NNear(r, NMul(v, One), "1048577/2097152")
                                        /\ NIsInt(NMul(v, One)) => NEq(r, NMul(v, One))
  IN All(e, P)
TextEv(e) == LET P(k) == e.zs[k] = Text(e.xs[k], e.ds[k]) /\ e.zc[k] = (IF e.ds[k] < 0 THEN e.zc[k] ELSE Text(e.xs[k], e.ds[k])) /\ e.len[k] = Len(e.zs[k]) IN All(e, P)
Const(e) ==
  LET e1 == NExp("1")
      want == [FP_E |-> e1, FP_LOG2E |-> NDiv("1", NLn("2")), FP_LOG10E |-> NDiv("1", NLn("10")), FP_LN2 |-> NLn("2"), FP_LN10 |-> NLn("10"),
               FP_PI |-> NPi, FP_PI_2 |-> NDiv(NPi, "2"), FP_PI_4 |-> NDiv(NPi, "4"), FP_1_PI |-> NDiv("1", NPi), FP_2_PI |-> NDiv("2", NPi),
               FP_2_SQRTPI |-> NDiv("2", NSqrt(NPi)), FP_SQRT2 |-> NSqrt("2"), FP_SQRT1_2 |-> NSqrt("1/2"),
               lit1 |-> "1", lit0 |-> "0", lit32767 |-> "32767", lit1_5 |-> "3/2", lit0_1 |-> "1/10", litbig |-> "32767.99998", litneg |-> "-2.75", litdef |-> "0"]
      P(k) == NEq(e.zs[k], FromReal(want[e.xs[k]]))
  IN All(e, P)
Func(e) ==
  LET P(k) == LET x == e.xs[k] r == e.zs[k] IN
              CASE e.f = "sqrt" -> OK_sqrt(x, r)
                [] e.f = "exp" -> OK_exp(x, r)
                [] e.f = "log" -> OK_log(x, r)
                [] e.f = "log2" -> OK_log2(x, r)
                [] e.f = "wrapToPi" -> OK_wrapToPi(x, r)
                [] e.f = "wrapTo180" -> OK_wrapTo180(x, r)
                [] e.f = "radToDeg" -> OK_radToDeg(x, r)
                [] e.f = "degToRad" -> OK_degToRad(x, r)
                [] e.f = "sin" -> OK_sin(x, r)
                [] e.f = "cos" -> OK_cos(x, r)
                [] e.f = "tan" -> OK_tan(x, r)
                [] e.f = "atan" -> OK_atan(x, r)
                [] e.f = "asin" -> OK_asin(x, r)
                [] e.f = "acos" -> OK_acos(x, r)
                [] e.f = "cosh" -> OK_cosh(x, r)
                [] e.f = "sinh" -> OK_sinh(x, r)
                [] e.f = "tanh" -> OK_tanh(x, r)
  IN All(e, P)
Func2(e) ==
  LET P(k) == LET x == e.xs[k] y == e.ys[k] r == e.zs[k] IN
              CASE e.f = "atan2" -> OK_atan2(x, y, r)
                [] e.f = "pow" ->
                   IF NEq(y, "0") THEN NEq(r, One)
                   ELSE IF NIsInt(Real(y)) /\ NSgn(y) > 0 THEN OK_powInt(x, NInt(Real(y)), r)
                   ELSE IF NSgn(x) > 0 THEN OK_powReal(x, y, r)
                   ELSE IF NSgn(x) < 0 /\ NIsInt(Real(y)) THEN OK_powReal(NAbs(x), y, IF NEq(NMod(Real(y), "2"), "1") THEN NNeg(r) ELSE r)
                   ELSE TRUE
  IN All(e, P)
Init == i = 0
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i']
           IN \/ e.op = "new"
              \/ e.op = "arith" /\ Arith(e)
              \/ e.op = "cmp" /\ Cmp(e)
              \/ e.op = "un" /\ Unary(e)
              \/ e.op = "from" /\ From(e)
              \/ e.op = "text" /\ TextEv(e)
              \/ e.op = "const" /\ Const(e)
              \/ e.op = "fn" /\ Func(e)
              \/ e.op = "fn2" /\ Func2(e)
Spec == Init /\ [][Next]_i
=============================================================================
