CONSTANTS Vals = {"0", "1", "-2", "8"}
          LMax = 5
SPECIFICATION Spec
INVARIANTS UnitGain Convex Twins Finite Deterministic Emit
CHECK_DEADLOCK FALSE
