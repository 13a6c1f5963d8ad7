SPECIFICATION Spec
CONSTANTS
    Ns = {1, 2, 3, 5, 8, 13, 20}
    Virts = {1, 2, 3, 5, 8, 13, 21, 40}
INVARIANTS AtEnds InBar Valid
PROPERTY OneMeaning
CHECK_DEADLOCK FALSE
