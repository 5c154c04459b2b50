INIT TraceInit
NEXT TraceNext
INVARIANT Judged
INVARIANT Balanced
CHECK_DEADLOCK FALSE
VIEW TraceView
