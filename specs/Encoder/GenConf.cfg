SPECIFICATION Spec
CONSTANTS PMax = 1000  EMax = 1  Out = FALSE  Confs = {"short", "none", "bad", "raw", "nofps", "fps"}  Sizes <- SizesB  Refs = {}
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
