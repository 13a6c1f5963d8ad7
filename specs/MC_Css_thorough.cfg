SPECIFICATION Spec
CONSTANTS MaxRules = 2
 MaxOps = 2
INVARIANTS Incremental Winner Nesting
CHECK_DEADLOCK FALSE
