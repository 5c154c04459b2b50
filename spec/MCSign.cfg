INIT Init
NEXT Next
INVARIANT Never
INVARIANT Always
INVARIANT Exactly
INVARIANT Emitted
CHECK_DEADLOCK FALSE
