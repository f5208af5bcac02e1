SPECIFICATION Spec
POSTCONDITION AcceptedTrace
CHECK_DEADLOCK FALSE
