SPECIFICATION Spec
CONSTANTS N = 2
PMax = 1000000
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
