SPECIFICATION Spec
CONSTANTS PMax = 1000000
Fs = {0, 5}
Pends = 1
Ws = {0, 16, 5000}
Cap = 6000
Deep = FALSE
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
