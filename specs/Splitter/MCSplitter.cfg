SPECIFICATION Spec
CONSTANTS N = 2
PMax = 2
INVARIANT TypeOK
PROPERTY Sound
VIEW Full
CHECK_DEADLOCK FALSE
