SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS OnceEach Exclusive Lost
PROPERTIES Prompt Ordered NotEarly Unlost
VIEW View
CHECK_DEADLOCK FALSE
