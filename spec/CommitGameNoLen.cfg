SPECIFICATION Spec
CONSTANTS
  SaltLen = 1
  MaxLen = 2
  CheckLen = FALSE
INVARIANT Binding
CHECK_DEADLOCK FALSE
