SPECIFICATION MSpec
CONSTANTS
MinWin = 2
VideoRate = 12800
QMax = 7
PMax = 6
AMax = 4
EMax = 3
Kinds = {1, 3}
Maxes = {2}
Aligned = FALSE
Step = 300000
AStep = 9600
VIEW Full
INVARIANTS NothingLost Consistent Cuts Listed Kept AudioCuts Reps
PROPERTIES Window Alone
CHECK_DEADLOCK FALSE
