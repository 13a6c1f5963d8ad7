SPECIFICATION Spec
CONSTANTS MaxLen = 7
MaxW = 4
INVARIANTS Fits Keeps Rows Verbatim
CHECK_DEADLOCK FALSE
