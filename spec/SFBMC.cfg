SPECIFICATION Spec
CONSTANTS N = 8
NX = 8
INVARIANTS PolyLaws BesLaws SphLaws Emit
CHECK_DEADLOCK FALSE
