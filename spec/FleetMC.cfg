CONSTANTS
  Slots = 3
  LMax = 6
SPECIFICATION Spec
INVARIANTS Alone Commute Emit
CHECK_DEADLOCK FALSE
