SPECIFICATION Spec
CONSTANTS
 W = {1, 2}
 T = {11, 12}
 PopCurrent = TRUE
 RemoveQueued = TRUE
 OnePost = TRUE
 Controls = 4
INVARIANTS NoOverlap NeverEarlyOrUnasked NeverTouched QuietAfterStop Enabled
PROPERTIES EveryEnabledRuns CallsReturn
