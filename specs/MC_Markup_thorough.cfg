SPECIFICATION Spec
CONSTANTS MaxToks = 7
 Tags = 4
INVARIANTS AsWritten Nested
PROPERTY CloseShrinks
CHECK_DEADLOCK FALSE
