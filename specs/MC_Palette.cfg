SPECIFICATION Spec
CONSTANTS MaxSteps = 7
 MaxGen = 4
INVARIANTS NoMixing InOrder Sound ClosedIsEmpty AllShown BusyMeans
PROPERTIES Runs Announced HlTrue HlMoves
CHECK_DEADLOCK FALSE
