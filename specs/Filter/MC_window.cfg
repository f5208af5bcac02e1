SPECIFICATION Spec
CONSTANTS
 World = "window"
 MaxV = 3
INVARIANTS Ends Bounded Numbered NoStall InOrder
PROPERTIES Once Forward
CHECK_DEADLOCK FALSE
VIEW View
