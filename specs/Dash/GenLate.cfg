SPECIFICATION MSpec
CONSTANTS
MinWin = 2
VideoRate = 12800
QMax = 7
PMax = 100000
AMax = 100000
EMax = 100000
Kinds = {1, 2}
Maxes = {2, 3}
Aligned = TRUE
Step = 300000
AStep = 9600
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
