CONSTANTS
 MaxToks = 4
INIT Init
NEXT Next
INVARIANT Sane
INVARIANT Again
INVARIANT Forms
INVARIANT None
INVARIANT Emitted
CHECK_DEADLOCK FALSE
