SPECIFICATION Spec
CONSTANTS PMax = 1000  EMax = 1  Out = FALSE  Confs = {"gopTime", "none"}  Sizes <- SizesB  Refs <- RefsA
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
