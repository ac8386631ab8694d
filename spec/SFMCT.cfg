SPECIFICATION Spec
CONSTANT N = 80
INVARIANTS GammaLaws ErfLaws EiLaws ZetaLaws EllLaws Emit
CHECK_DEADLOCK FALSE
