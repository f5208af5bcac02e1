SPECIFICATION Spec
CONSTANTS MaxSlots = 3
 MaxLost = 1
 VMod = 1
INVARIANTS TypeOK NoFreeForcing
CHECK_DEADLOCK FALSE
