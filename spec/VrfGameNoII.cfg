SPECIFICATION Spec
CONSTANTS
  Q = 3
  Hashed = {"P", "GR", "HR"}
  CheckII = TRUE
  CheckP = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
