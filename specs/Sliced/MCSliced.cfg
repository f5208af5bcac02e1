SPECIFICATION Spec
CONSTANTS M = 4
VMod = 3
MaxLost = 3
Groups = {1, 2}
MaxSlices = 3
INVARIANT TypeOK
PROPERTY Step
CHECK_DEADLOCK FALSE
