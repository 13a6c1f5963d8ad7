SPECIFICATION Spec
CONSTANTS MaxToks = 6
 Tags = 3
INVARIANTS AsWritten Nested
PROPERTY CloseShrinks
CHECK_DEADLOCK FALSE
