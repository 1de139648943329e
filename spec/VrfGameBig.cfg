SPECIFICATION Spec
CONSTANTS
  Q = 5
  Hashed = {"P", "II", "GR", "HR"}
  CheckII = TRUE
  CheckP = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
