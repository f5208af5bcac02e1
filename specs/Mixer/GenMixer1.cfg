SPECIFICATION Spec
CONSTANTS N = 1
W = 4
H = 4
PMax = 1000000
Deep = FALSE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
