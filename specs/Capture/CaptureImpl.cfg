SPECIFICATION Spec
CONSTANTS Devs = {1, 2}
Bufs = 3
Stubborn = FALSE
Leaky = FALSE
INVARIANTS NothingKept OneAtATime Settled
PROPERTIES Released Ends
CHECK_DEADLOCK FALSE
