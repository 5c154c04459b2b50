CONSTANTS
 Names = {"p", "q", "r"}
 Contents = 3
INIT Init
NEXT Next
INVARIANT Ending
INVARIANT Short
INVARIANT Emitted
CHECK_DEADLOCK FALSE
