SPECIFICATION Spec1
CONSTANTS EB = 5
          FB = 3
INVARIANTS RoundingOK RoundingLaws LdexpOK
CHECK_DEADLOCK FALSE
