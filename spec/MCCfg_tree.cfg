CONSTANTS
 MaxOps = 3
 MaxToks = 3
 Parents = {"a", "A", "b"}
INIT Init1
NEXT Next1
INVARIANT ParsesBack
INVARIANT DecodesBack
INVARIANT Emit1
CHECK_DEADLOCK FALSE
