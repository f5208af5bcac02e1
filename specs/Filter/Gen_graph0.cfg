SPECIFICATION Spec
CONSTANTS
 World = "graph"
 MaxV = 0
CHECK_DEADLOCK FALSE
