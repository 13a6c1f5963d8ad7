SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS NoHalves ExactWidth CropWidth DivideCovers SplitKeeps OnlyColours
CHECK_DEADLOCK FALSE
