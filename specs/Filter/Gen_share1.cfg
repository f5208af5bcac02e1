SPECIFICATION Spec
CONSTANTS
 World = "share"
 MaxV = 1
CHECK_DEADLOCK FALSE
