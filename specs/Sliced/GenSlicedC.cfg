SPECIFICATION Spec
CONSTANTS M = 2
VMod = 3
MaxLost = 1000000
Groups = {0, 1, 2, 5, 15, 17}
MaxSlices = 16
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
