SPECIFICATION TSpec
CONSTANT Cap = 6220800
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
