SPECIFICATION Spec
CONSTANTS Sizes = {3, 5}
Contents = {2, 4, 9}
INVARIANTS OffsetsInBounds FlagsFixed NoGap
PROPERTY HiddenStays
CHECK_DEADLOCK FALSE
