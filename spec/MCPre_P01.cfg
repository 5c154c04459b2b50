CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init1
NEXT Next
INVARIANT Meaning1
INVARIANT Emit1
CHECK_DEADLOCK FALSE
