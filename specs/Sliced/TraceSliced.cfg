SPECIFICATION TSpec
CONSTANT MaxSlices = 16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
