SPECIFICATION Spec
INVARIANTS Parses Refines Unit Morgan Emit
CHECK_DEADLOCK FALSE
