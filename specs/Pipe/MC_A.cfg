SPECIFICATION Spec
CONSTANTS Zoo <- ZA
PathIds = {1,2}
Ws0 <- S12m
Rds0 <- S12
MidLens = {0,1}
Api = FALSE
MaxLinks = 5
INVARIANT Inv
PROPERTY Others
VIEW view
CHECK_DEADLOCK FALSE
