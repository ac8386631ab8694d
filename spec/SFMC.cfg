SPECIFICATION Spec
CONSTANT N = 20
INVARIANTS GammaLaws ErfLaws EiLaws ZetaLaws EllLaws Emit
CHECK_DEADLOCK FALSE
