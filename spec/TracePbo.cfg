INIT Init
NEXT Next
INVARIANT Judged
INVARIANT Sound
CHECK_DEADLOCK FALSE
VIEW View
