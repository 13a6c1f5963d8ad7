SPECIFICATION Spec
CONSTANTS MaxSrc = 3
MaxNow = 4
INVARIANT Exact
PROPERTY Monotone
CHECK_DEADLOCK FALSE
