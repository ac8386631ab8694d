SPECIFICATION Spec
CONSTANT N = 1024
INVARIANTS RootsOK PolysOK OracleOK Emit
CHECK_DEADLOCK FALSE
