SPECIFICATION Spec
CONSTANTS MaxName = 4
 MaxQuery = 3
INVARIANTS FoundIff Sound ExactBest CaseStricter
PROPERTY Narrowing
CHECK_DEADLOCK FALSE
