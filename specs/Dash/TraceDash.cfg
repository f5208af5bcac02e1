SPECIFICATION TSpec
CONSTANTS MinWin = 2
VideoRate = 12800
QMax = 7
POSTCONDITION AcceptedTrace
CHECK_DEADLOCK FALSE
