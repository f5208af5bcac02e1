SPECIFICATION Spec
CONSTANTS Cap = 14
Raw = FALSE
VMax = 6
Kinds = {"AUD", "IDR"}
Grouped = TRUE
INVARIANTS Sound Ordered OnePicture Complete
PROPERTY Untouched
VIEW Full
CHECK_DEADLOCK FALSE
