SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 6}
Contents = {1, 3, 5, 13}
INVARIANTS OffsetsInBounds FlagsFixed NoGap
PROPERTY HiddenStays
CHECK_DEADLOCK FALSE
