CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init3
NEXT Next
INVARIANT Meaning3
INVARIANT Emit3
CHECK_DEADLOCK FALSE
