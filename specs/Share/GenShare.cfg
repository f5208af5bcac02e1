SPECIFICATION MSpec
CONSTANTS
 MaxV = 2
 Cons = {1, 2, 3}
 Size = 3
CHECK_DEADLOCK FALSE
