SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
