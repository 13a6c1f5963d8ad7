SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS OneFocus Cyclic Rises Queries
PROPERTY Landed
CHECK_DEADLOCK FALSE
