SPECIFICATION Spec
CONSTANTS Tol = 1
VMax = 3
Ns = {0, 1, 3}
Devs <- MCDevs
Outs = {2}
Gap = 3
Room = 5
Unit = 1
Rate = 1000000
Num = 1
Den = 1
INVARIANTS Gapless OnTime InOrder Whole Counted
PROPERTY Undisturbed
VIEW Full
CHECK_DEADLOCK FALSE
