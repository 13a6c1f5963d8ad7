SPECIFICATION Spec
CONSTANTS MaxSrc = 3
MaxNow = 8
INVARIANT Exact
PROPERTY Monotone
CHECK_DEADLOCK FALSE
