CONSTANTS
 Part = "options"
 MaxOpts = 3
INIT Init
NEXT Next
INVARIANT NeverBoth
INVARIANT AllThere
INVARIANT Counts
INVARIANT Emitted
CHECK_DEADLOCK FALSE
