CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init6
NEXT Next
INVARIANT Meaning6
INVARIANT Emit6
CHECK_DEADLOCK FALSE
