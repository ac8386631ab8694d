CONSTANTS Vals = {"0", "1", "-2", "2"}
          LMax = 5
SPECIFICATION Spec
INVARIANTS Bounded Homogeneous
CHECK_DEADLOCK FALSE
