CONSTANT F = 4
SPECIFICATION Spec
INVARIANTS DivExact NoLoss MulExact
CHECK_DEADLOCK FALSE
