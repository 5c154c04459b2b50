CONSTANTS
 Depth = 3
INIT Init
NEXT Next
INVARIANTS Fresh Apart NoStale Checked Signed Unsigned Zipped Kept OneEach Tells Shown
CHECK_DEADLOCK FALSE
