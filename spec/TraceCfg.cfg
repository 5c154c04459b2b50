INIT Init
NEXT Next
VIEW View
INVARIANT Judged
CHECK_DEADLOCK FALSE
