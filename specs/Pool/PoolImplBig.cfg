SPECIFICATION Spec
CONSTANTS
 W = {1, 2, 3}
 T = {11, 12}
 PopCurrent = TRUE
 RemoveQueued = TRUE
 OnePost = TRUE
 Controls = 6
INVARIANTS NoOverlap NeverEarlyOrUnasked NeverTouched QuietAfterStop Enabled
