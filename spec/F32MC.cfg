SPECIFICATION Spec
CONSTANTS EB = 3
          FB = 3
INVARIANTS RoundingOK RoundingLaws NextOK NextLaws RoundOK
CHECK_DEADLOCK FALSE
