INIT Init
NEXT Next
CONSTANTS
 Wide = FALSE
INVARIANTS CacheTrue Right Ends0 Out
CHECK_DEADLOCK FALSE
