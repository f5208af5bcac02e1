SPECIFICATION TSpec
CONSTANTS Max = 4800
Th = 2880
Out = 960
SPS = 48000
USec = 1000000
Inputs = 16
POSTCONDITION AcceptedTrace
CHECK_DEADLOCK FALSE
