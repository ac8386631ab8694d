CONSTANTS
  WMax = 4
  W = 4
  Slots = 2
SPECIFICATION Spec
INVARIANTS DesignIsFlat Fits ReadsBack WriteReadLaw
CHECK_DEADLOCK FALSE
