SPECIFICATION USpec
CONSTANTS
MinWin = 2
VideoRate = 12800
QMax = 7
K = "hevc"
UMax = 5
CMax = 2
GMax = 3
Step = 300000
VIEW Full
INVARIANTS Whole Grouped NotSplit Headers
CHECK_DEADLOCK FALSE
