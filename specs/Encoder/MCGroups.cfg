SPECIFICATION Spec
CONSTANTS PMax = 5  EMax = 1  Out = FALSE  Confs = {"gopTime"}  Sizes <- SizesB  Refs <- RefsA
VIEW Full
INVARIANTS Once Sane
PROPERTIES Grid Requests Decode
CHECK_DEADLOCK FALSE
