CONSTANTS
 MaxOps = 4
INIT Init
NEXT Next
INVARIANT Stable
INVARIANT Fresh
INVARIANT Emitted
CHECK_DEADLOCK FALSE
