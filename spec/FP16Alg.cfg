CONSTANT F = 3
SPECIFICATION Spec
INVARIANTS DivExact NoLoss MulExact
PROPERTY Terminates
CHECK_DEADLOCK FALSE
