SPECIFICATION Spec
CONSTANTS PMax = 3
Fs = {2}
Pends = 1
Ws = {0, 5000}
Cap = 6000
Deep = TRUE
INVARIANTS TypeOK Ordered
PROPERTIES Refused Applied
VIEW Full
CHECK_DEADLOCK FALSE
