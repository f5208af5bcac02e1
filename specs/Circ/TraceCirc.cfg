SPECIFICATION TSpec
CONSTANT Tol = 64
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
