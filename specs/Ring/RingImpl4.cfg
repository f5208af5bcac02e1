SPECIFICATION Spec
CONSTANTS Max = 4  N = 10  Locked = TRUE
INVARIANTS Same Whole Kept Counted
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
