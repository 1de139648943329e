SPECIFICATION Spec
CONSTANTS
  Q = 3
  Hashed = {"P", "II", "GR", "HR"}
  CheckII = TRUE
  CheckP = FALSE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
