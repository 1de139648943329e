SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 MaxUser = 0
 MaxRun = 0
 Exclusive = FALSE
 KeepRoot = TRUE
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
