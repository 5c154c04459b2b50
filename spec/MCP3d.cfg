INIT Init
NEXT Next
CONSTANTS
 MaxParts = 3
 Wide = FALSE
INVARIANTS Back Cut Changed Carries Out
CHECK_DEADLOCK FALSE
