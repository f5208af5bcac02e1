SPECIFICATION MSpec
CONSTANTS
 MaxV = 4
 Cons = {1, 2, 3}
 Size = 4
INVARIANTS Bounded NoStall Fifo Valid
PROPERTIES EachOnce AllTold
CHECK_DEADLOCK FALSE
