SPECIFICATION Spec
CONSTANTS Max = 3  N = 8  Locked = FALSE
INVARIANTS Same Whole Kept Counted
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
