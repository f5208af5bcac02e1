SPECIFICATION Spec
CONSTANTS
 World = "window"
 MaxV = 1
CHECK_DEADLOCK FALSE
