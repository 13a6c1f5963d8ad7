SPECIFICATION Spec
CONSTANTS MaxKids = 3
Sizes = {0, 5, 10}
INVARIANTS NoOverlap NonNegative AllPlaced FillsV FillsH Fair AlignedIn
CHECK_DEADLOCK FALSE
