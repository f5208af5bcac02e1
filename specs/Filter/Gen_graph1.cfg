SPECIFICATION Spec
CONSTANTS
 World = "graph"
 MaxV = 1
CHECK_DEADLOCK FALSE
