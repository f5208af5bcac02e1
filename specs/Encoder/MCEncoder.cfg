SPECIFICATION Spec
CONSTANTS PMax = 3  EMax = 1  Out = TRUE  Confs = {"gopTime", "bad", "none"}  Sizes <- SizesA  Refs <- RefsA
VIEW Full
INVARIANTS Once Sane
PROPERTIES Grid Requests Decode
CHECK_DEADLOCK FALSE
