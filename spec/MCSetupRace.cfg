SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 MaxUser = 0
 MaxRun = 0
 Exclusive = FALSE
 KeepRoot = TRUE
INVARIANTS Match
CHECK_DEADLOCK FALSE
