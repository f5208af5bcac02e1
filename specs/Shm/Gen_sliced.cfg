SPECIFICATION Spec
CONSTANTS Cap = 10
Raw = FALSE
Pics = TRUE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
