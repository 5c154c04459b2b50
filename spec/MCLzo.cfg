INIT Init
NEXT Next
CONSTANTS
 MaxIns = 3
 Wide = FALSE
INVARIANTS ReadBack ExactRoom NoPrefix NothingBehind Out
CHECK_DEADLOCK FALSE
