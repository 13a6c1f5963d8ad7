SPECIFICATION Spec
CONSTANTS MaxKids = 4
Sides = {12}
INVARIANTS Closed Inside HasGlyph Clear Apart
CHECK_DEADLOCK FALSE
