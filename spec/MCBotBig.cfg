SPECIFICATION Spec
CONSTANTS
  MaxDM = 3
  IgnoreOwn = TRUE
  CheckName = TRUE
INVARIANTS Authentic NoLoop
CHECK_DEADLOCK FALSE
