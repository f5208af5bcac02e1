SPECIFICATION Spec
CONSTANTS Max = 3  N = 8  Locked = TRUE
INVARIANTS Same Whole Kept Counted
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
