SPECIFICATION Spec
CONSTANTS Cap = 3
Raw = TRUE
VMax = 6
Kinds = {"raw", "big"}
Grouped = FALSE
INVARIANTS Sound Ordered OnePicture Complete
PROPERTY Untouched
VIEW Full
CHECK_DEADLOCK FALSE
