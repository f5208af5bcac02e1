SPECIFICATION Spec
CONSTANTS Cap = 10
Raw = FALSE
Pics = FALSE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
