SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS TypeOK Ordered Within
VIEW Full
CHECK_DEADLOCK FALSE
