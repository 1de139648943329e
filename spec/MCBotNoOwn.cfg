SPECIFICATION Spec
CONSTANTS
  MaxDM = 2
  IgnoreOwn = FALSE
  CheckName = TRUE
INVARIANTS NoLoop
CHECK_DEADLOCK FALSE
