SPECIFICATION Spec
CONSTANTS MaxKids = 4
Sizes = {0, 1, 2, 3, 4, 5, 7, 10, 13}
INVARIANTS NoOverlap NonNegative AllPlaced FillsV FillsH Fair AlignedIn
CHECK_DEADLOCK FALSE
