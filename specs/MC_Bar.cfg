SPECIFICATION Spec
CONSTANTS
    Ns = {1, 2, 5, 9}
    Virts = {1, 2, 5, 7, 12}
INVARIANTS AtEnds InBar Valid
PROPERTY OneMeaning
CHECK_DEADLOCK FALSE
