CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init2
NEXT Next
INVARIANT Meaning2
INVARIANT Emit2
CHECK_DEADLOCK FALSE
