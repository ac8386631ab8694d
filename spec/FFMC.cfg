SPECIFICATION Spec
CONSTANT N = 64
INVARIANTS RootsOK PolysOK OracleOK Emit
CHECK_DEADLOCK FALSE
