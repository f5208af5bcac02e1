SPECIFICATION Spec
CONSTANTS Tol = 64
VMax = 1000000000
Ns = {0, 80, 240, 400}
Devs <- GenDevs
Outs = {80, 160}
Gap = 100
Room = 800
Unit = 80
Rate = 8000
Num = 125
Den = 1
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
