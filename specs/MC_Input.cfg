SPECIFICATION Spec
CONSTANTS Chars = {97, 769, 127462, 128105, 8205}
MaxLen = 4
INVARIANTS CursorInRange CursorOnBoundary OneCursorCell
PROPERTY OneEdit
CHECK_DEADLOCK FALSE
