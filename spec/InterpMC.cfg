SPECIFICATION Spec
INVARIANTS Knots Lines NoOvershoot Joined Neighbours Emit
CHECK_DEADLOCK FALSE
