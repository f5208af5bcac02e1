SPECIFICATION Spec
CONSTANTS
 World = "graph"
 MaxV = 1
INVARIANTS Ends Bounded Numbered NoStall InOrder
PROPERTIES Once Forward
CHECK_DEADLOCK FALSE
VIEW View
