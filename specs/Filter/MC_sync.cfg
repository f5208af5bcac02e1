SPECIFICATION Spec
CONSTANTS
 World = "sync"
 MaxV = 5
INVARIANTS Ends Bounded Numbered NoStall InOrder
PROPERTIES Once Forward
CHECK_DEADLOCK FALSE
VIEW View
