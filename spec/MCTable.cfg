INIT Init
NEXT Next
CONSTANTS
 MaxSteps = 1
 Wide = FALSE
 Notes = TRUE
 Ids = {"k"}
INVARIANTS Kept Orderly Stable StableLanguages OneForm Whole Summed Unmoved Out
CHECK_DEADLOCK FALSE
