CONSTANT WMax = 32
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
