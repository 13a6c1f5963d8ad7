SPECIFICATION Spec
CONSTANTS MaxSteps = 9
 MaxGen = 5
INVARIANTS NoMixing InOrder Sound ClosedIsEmpty AllShown BusyMeans
PROPERTIES Runs Announced HlTrue HlMoves
CHECK_DEADLOCK FALSE
