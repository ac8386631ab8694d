SPECIFICATION Spec
CONSTANTS EB = 8
          FB = 23
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
