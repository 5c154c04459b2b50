CONSTANTS
 MaxToks = 5
 Start = ""
INIT Init
NEXT Next
INVARIANT Again
INVARIANT Numbers
INVARIANT Emitted
CHECK_DEADLOCK FALSE
