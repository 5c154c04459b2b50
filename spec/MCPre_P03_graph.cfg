CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init7
NEXT Next
INVARIANT Meaning7
INVARIANT Emit7
CHECK_DEADLOCK FALSE
