SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS NoHalves ExactWidth CropWidth DivideCovers SplitKeeps OnlyColours
CHECK_DEADLOCK FALSE
