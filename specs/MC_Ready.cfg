SPECIFICATION Spec
CONSTANTS Sides = {1, 2, 3, 5}
MaxLen = 4
INVARIANTS Padded Whole Kept Fit Greedy Seen Cycle Measure Spins Titled
CHECK_DEADLOCK FALSE
