SPECIFICATION Spec
CONSTANTS
  SaltLen = 2
  MaxLen = 2
  CheckLen = TRUE
INVARIANT Binding
CHECK_DEADLOCK FALSE
