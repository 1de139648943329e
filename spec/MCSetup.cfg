SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 MaxUser = 1
 MaxRun = 2
 Exclusive = TRUE
 KeepRoot = TRUE
INVARIANTS Match Complete Usable Pinned
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
