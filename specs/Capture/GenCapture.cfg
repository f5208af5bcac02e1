SPECIFICATION Spec
CONSTANTS Deep = FALSE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
