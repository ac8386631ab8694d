CONSTANTS
  W = 4
  MaxBits = 7
SPECIFICATION Spec
INVARIANTS Divides DetectsBursts
CHECK_DEADLOCK FALSE
