CONSTANTS
  Vals = {"0", "1", "-2.5"}
  LMax = 6
SPECIFICATION Spec
INVARIANTS Superposition TimeInvariance SameOutputs DifferenceEquation Equilibrium Emit
CHECK_DEADLOCK FALSE
