SPECIFICATION TSpec
POSTCONDITION AcceptedTrace
CHECK_DEADLOCK FALSE
