INIT Init
NEXT Next
CONSTANTS
 Part = "find"
 MaxFiles = 2
 MaxOps = 0
INVARIANTS AbsoluteFirst ThereIfFound Resolution SlashesAlike CaseOfPrefix Again TopWins FindOut
CHECK_DEADLOCK FALSE
