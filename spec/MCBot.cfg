SPECIFICATION Spec
CONSTANTS
  MaxDM = 2
  IgnoreOwn = TRUE
  CheckName = TRUE
INVARIANTS Authentic NoLoop
CHECK_DEADLOCK FALSE
