SPECIFICATION Spec
CONSTANTS MaxN = 5
INVARIANTS OneFocus Cyclic Rises Queries
PROPERTY Landed
CHECK_DEADLOCK FALSE
