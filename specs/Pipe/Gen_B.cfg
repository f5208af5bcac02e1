SPECIFICATION Spec
CONSTANTS Zoo <- ZB
PathIds = {1,2}
Ws0 <- S1
Rds0 <- S12
MidLens = {0,1}
Api = FALSE
MaxLinks = 6
ACTION_CONSTRAINT Emit
VIEW view
CHECK_DEADLOCK FALSE
