INIT Init
NEXT Next
CONSTANTS
 Names = {"a", "A", "b"}
 MaxDirs = 3
INVARIANTS Says Apart Emitted
CHECK_DEADLOCK FALSE
