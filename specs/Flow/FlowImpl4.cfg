SPECIFICATION Spec
CONSTANTS MaxV = 5  Cap = 4  MaxChanges = 3  Wake = TRUE
INVARIANTS Bounded Ordered Kept Woken Front NoHoles
PROPERTIES EveryFrame ToTheEnd
CHECK_DEADLOCK FALSE
