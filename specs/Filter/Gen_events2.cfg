SPECIFICATION Spec
CONSTANT MaxN = 2
CHECK_DEADLOCK FALSE
