SPECIFICATION Spec
CONSTANTS Cap = 10
Raw = TRUE
Pics = FALSE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
