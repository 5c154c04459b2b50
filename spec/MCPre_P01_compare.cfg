CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init8
NEXT Next
INVARIANT Meaning8
INVARIANT Emit8
CHECK_DEADLOCK FALSE
