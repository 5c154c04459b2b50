CONSTANTS
 MaxOps = 3
 MaxToks = 3
 Parents = {"a", "A", "b"}
INIT Init3E
NEXT Next3
INVARIANT Accepts3
INVARIANT Means3
INVARIANT Emit3
CHECK_DEADLOCK FALSE
