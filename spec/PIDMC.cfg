CONSTANTS LMax = 5
          Which = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS InLimits WindUpBounded ResetIsFresh Emit
CHECK_DEADLOCK FALSE
