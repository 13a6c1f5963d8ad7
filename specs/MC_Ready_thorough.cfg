SPECIFICATION Spec
CONSTANTS Sides = {1, 2, 3, 4, 6}
MaxLen = 6
INVARIANTS Padded Whole Kept Fit Greedy Seen Cycle Measure Spins Titled
CHECK_DEADLOCK FALSE
