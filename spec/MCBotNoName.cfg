SPECIFICATION Spec
CONSTANTS
  MaxDM = 2
  IgnoreOwn = TRUE
  CheckName = FALSE
INVARIANTS Authentic
CHECK_DEADLOCK FALSE
