SPECIFICATION TSpec
INVARIANT Safety
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
