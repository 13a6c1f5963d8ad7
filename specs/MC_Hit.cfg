SPECIFICATION Spec
CONSTANTS Heights = {1, 5}
Kinds = {"box"}
INVARIANTS Settled InContent Consistent
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
