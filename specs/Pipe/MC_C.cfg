SPECIFICATION Spec
CONSTANTS Zoo <- ZC
PathIds = {1,2}
Ws0 <- S1
Rds0 <- S12
MidLens = {0,1,2}
Api = FALSE
MaxLinks = 6
INVARIANT Inv
PROPERTY Others
VIEW view
CHECK_DEADLOCK FALSE
