SPECIFICATION Spec
CONSTANTS
  Q = 3
  Hashed = {"P", "II", "HR"}
  CheckII = TRUE
  CheckP = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
