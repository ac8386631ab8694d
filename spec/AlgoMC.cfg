SPECIFICATION Spec
CONSTANTS N = 4
          V = 2
INVARIANTS NothingLost StackBounded Partitioned Separated SortedAtEnd RotationLaw Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
