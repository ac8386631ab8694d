CONSTANTS LMax = 6
SPECIFICATION Spec
INVARIANTS CompleteMeansInstalled Emit
PROPERTY OnlyWhenArmed
CHECK_DEADLOCK FALSE
