SPECIFICATION Spec
CONSTANTS
 World = "share"
 MaxV = 2
INVARIANTS Ends Bounded Numbered NoStall InOrder
PROPERTIES Once Forward
CHECK_DEADLOCK FALSE
VIEW View
