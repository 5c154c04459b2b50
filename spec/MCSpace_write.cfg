INIT Init
NEXT Next
CONSTANTS
 Part = "write"
 MaxFiles = 3
 MaxOps = 3
INVARIANTS ReadBack Below0 MiddleEmpty TopWins WriteOut
CHECK_DEADLOCK FALSE
