SPECIFICATION Spec
CONSTANTS MaxRules = 2
 MaxOps = 1
INVARIANTS Incremental Winner Nesting
CHECK_DEADLOCK FALSE
