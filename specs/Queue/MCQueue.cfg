SPECIFICATION Spec
CONSTANTS MaxSlots = 4
 MaxLost = 1
 VMod = 2
INVARIANTS TypeOK NoFreeForcing
PROPERTY FifoStep
CHECK_DEADLOCK FALSE
