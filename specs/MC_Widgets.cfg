SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS OneHover Held Rests
PROPERTY FromEnabled
CHECK_DEADLOCK FALSE
