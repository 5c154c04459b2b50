CONSTANTS
 MaxOps = 3
 MaxToks = 3
 Parents = {"a", "A", "b"}
INIT Init2
NEXT Next2
INVARIANT Same2
INVARIANT Tables2
INVARIANT Emit2
CHECK_DEADLOCK FALSE
