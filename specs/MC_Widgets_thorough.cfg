SPECIFICATION Spec
CONSTANT Small = FALSE
INVARIANTS OneHover Held Rests
PROPERTY FromEnabled
CHECK_DEADLOCK FALSE
