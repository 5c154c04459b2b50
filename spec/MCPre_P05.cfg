CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init5
NEXT Next
INVARIANT Meaning5
INVARIANT Emit5
CHECK_DEADLOCK FALSE
