CONSTANTS
  NMax = 5
  Vals = {"1", "2", "3"}
SPECIFICATION Spec
INVARIANTS InArea OldestIsLastTap
PROPERTY Refines
CHECK_DEADLOCK FALSE
