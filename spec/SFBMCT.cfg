SPECIFICATION Spec
CONSTANTS N = 14
NX = 24
INVARIANTS PolyLaws BesLaws SphLaws Emit
CHECK_DEADLOCK FALSE
