SPECIFICATION Spec
CONSTANTS
 World = "sync"
 MaxV = 2
CHECK_DEADLOCK FALSE
