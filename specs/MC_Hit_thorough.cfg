SPECIFICATION Spec
CONSTANTS Heights = {1, 4, 6}
Kinds = {"box", "pane", "screen"}
INVARIANTS Settled InContent Consistent
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
