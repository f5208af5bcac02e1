SPECIFICATION Spec
CONSTANTS Max = 5
Th = 3
Out = 2
SPS = 4
USec = 8
Inputs = 1
KMax = 4
Ns = {2}
Ps <- DeepPs
Vals = {10000}
Ts0 = 20
Cmds <- FewCmds
INVARIANTS Heard Contiguous Settled Bounded
VIEW Full
CHECK_DEADLOCK FALSE
