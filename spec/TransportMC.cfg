CONSTANTS Vals = {"1", "2", "-3"}
          NMax2 = 5
          LMax = 7
SPECIFICATION Spec
INVARIANTS Refines Shift Emit
CHECK_DEADLOCK FALSE
