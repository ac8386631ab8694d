CONSTANTS C = 3
          T = 4
SPECIFICATION Spec
INVARIANTS Orders SimpBetween Derivs HistoryIsLastTwo
CHECK_DEADLOCK FALSE
