SPECIFICATION Spec
INVARIANTS Bounded NoStall Fifo
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
