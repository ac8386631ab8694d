SPECIFICATION Spec
CONSTANT G = 2
INVARIANTS TriOK QuadOK Emit
CHECK_DEADLOCK FALSE
