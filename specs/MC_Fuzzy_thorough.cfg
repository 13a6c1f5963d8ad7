SPECIFICATION Spec
CONSTANTS MaxName = 5
 MaxQuery = 4
INVARIANTS FoundIff Sound ExactBest CaseStricter
PROPERTY Narrowing
CHECK_DEADLOCK FALSE
