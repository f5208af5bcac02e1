SPECIFICATION Spec
CONSTANTS Zoo <- ZD
PathIds = {1,2}
Ws0 <- S12
Rds0 <- S1m
MidLens = {0,1}
Api = FALSE
MaxLinks = 6
INVARIANT Inv
PROPERTY Others
VIEW view
CHECK_DEADLOCK FALSE
