CONSTANTS
 MaxLen = 5
 Defs3 = 3
 RootLen = 3
 SubLen = 2
 DeadLen = 2
 Lines7 = 2
INIT Init4
NEXT Next
INVARIANT Positions4
INVARIANT Tiles4
INVARIANT Emit4
CHECK_DEADLOCK FALSE
