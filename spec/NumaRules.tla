----------------------------- MODULE NumaRules -----------------------------
(* Quadrature and differentiation rules as fixed linear combinations of the  *)
(* last three samples.                                                       *)
EXTENDS Num, Sequences
\* increment of the integral (times dt) for samples s (now), p (previous), r (the one before)
IntRule(m, s, p, r) ==
  CASE m = "rect" -> NCanon(s)
    [] m = "trap" -> NDiv(NAdd(s, p), "2")
    [] m = "simp" -> NDiv(NSum(<<s, NMul("4", p), r>>), "6")
    [] m = "quad" -> NDiv(NSub(NAdd(NMul("5", s), NMul("8", p)), r), "12")
\* derivative (before division by dt)
DerRule(m, s, p, r) ==
  CASE m = "two"  -> NSub(s, p)
    [] m = "back" -> NDiv(NAdd(NSub(NMul("3", s), NMul("4", p)), r), "2")
    [] m = "forw" -> NDiv(NSub(NSub(NMul("4", p), NMul("3", r)), s), "2")
Mag(s, p, r) == NSum(<<NAbs(s), NAbs(p), NAbs(r)>>)       \* bounds every term of every rule up to a factor 4

=============================================================================
