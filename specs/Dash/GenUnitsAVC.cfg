SPECIFICATION USpec
CONSTANTS
MinWin = 2
VideoRate = 12800
QMax = 7
K = "avc"
UMax = 100000
CMax = 2
GMax = 3
Step = 300000
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
