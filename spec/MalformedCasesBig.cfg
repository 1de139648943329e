SPECIFICATION Spec
CONSTANTS
  Pairs = 60000
  Bytes = 60000
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
