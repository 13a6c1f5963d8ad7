SPECIFICATION Spec
CONSTANTS MaxKids = 2
Sides = {9, 12}
INVARIANTS Closed Inside HasGlyph Clear Apart
CHECK_DEADLOCK FALSE
