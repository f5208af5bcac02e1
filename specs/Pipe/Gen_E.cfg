SPECIFICATION Spec
CONSTANTS Zoo <- ZA
PathIds = {1,2}
Ws0 <- S1
Rds0 <- S12
MidLens = {0}
Api = TRUE
MaxLinks = 5
ACTION_CONSTRAINT Emit
VIEW view
CHECK_DEADLOCK FALSE
