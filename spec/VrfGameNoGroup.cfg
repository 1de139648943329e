SPECIFICATION Spec
CONSTANTS
  Q = 3
  Hashed = {"P", "II", "GR", "HR"}
  CheckII = FALSE
  CheckP = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
