CONSTANTS
 MaxOps = 3
 Slow = 2
INIT Init
NEXT Next
INVARIANT Content
INVARIANT ReadsBack
INVARIANT Cut
INVARIANT Size
INVARIANT Emitted
CHECK_DEADLOCK FALSE
