SPECIFICATION Spec
CONSTANTS
  Q = 3
  Hashed = {"P", "II", "GR", "HR"}
  CheckII = TRUE
  CheckP = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
