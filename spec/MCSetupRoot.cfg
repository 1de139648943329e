SPECIFICATION Spec
CONSTANTS
 Procs = {1}
 MaxUser = 0
 MaxRun = 2
 Exclusive = TRUE
 KeepRoot = FALSE
INVARIANTS Match Complete Usable Pinned
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
