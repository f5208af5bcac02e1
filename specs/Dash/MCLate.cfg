SPECIFICATION MSpec
CONSTANTS
MinWin = 2
VideoRate = 12800
QMax = 7
PMax = 11
AMax = 0
EMax = 3
Kinds = {1, 2}
Maxes = {2}
Aligned = TRUE
Step = 300000
AStep = 9600
VIEW Full
INVARIANTS NothingLost Consistent Cuts Listed Kept Reps
PROPERTIES Window Alone
CHECK_DEADLOCK FALSE
