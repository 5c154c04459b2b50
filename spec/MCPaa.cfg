INIT Init
NEXT Next
CONSTANTS
 MaxMaps = 2
 MaxTags = 1
INVARIANTS Back Cut Unknown Blocks Out
CHECK_DEADLOCK FALSE
