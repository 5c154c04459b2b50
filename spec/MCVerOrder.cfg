CONSTANTS
 Nums = {"0", "2", "10"}
INIT Init
NEXT Next
INVARIANT Order
INVARIANT Emitted
CHECK_DEADLOCK FALSE
