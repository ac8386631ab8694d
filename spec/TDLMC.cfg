CONSTANTS
  NMax = 4
  LMax = 7
  Vals = {"1", "2"}
SPECIFICATION Spec
INVARIANTS WindowIsHistory Emit
CHECK_DEADLOCK FALSE
