CONSTANTS
 MaxOps = 2
 Overs = "one"
INIT Init
NEXT Next
INVARIANT Unique
INVARIANT AsAdded
INVARIANT Held
INVARIANT Emitted
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
