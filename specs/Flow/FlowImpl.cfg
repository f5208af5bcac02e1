SPECIFICATION Spec
CONSTANTS MaxV = 4  Cap = 3  MaxChanges = 2  Wake = TRUE
INVARIANTS Bounded Ordered Kept Woken Front NoHoles
PROPERTIES EveryFrame ToTheEnd
CHECK_DEADLOCK FALSE
