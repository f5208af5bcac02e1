SPECIFICATION Spec
CONSTANTS N = 2
W = 2
H = 2
PMax = 2
Deep = TRUE
INVARIANT TypeOK
PROPERTIES OnlyIts Front
CHECK_DEADLOCK FALSE
VIEW Full
