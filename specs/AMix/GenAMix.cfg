SPECIFICATION Spec
CONSTANTS Max = 5
Th = 3
Out = 1
SPS = 50
USec = 50
Inputs = 2
KMax = 1000000
Ns = {1, 3}
Ps <- GenPs
Vals = {5000}
Ts0 = 100
Cmds <- AllCmds
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
