SPECIFICATION Spec
CONSTANTS
  Pairs = 4000
  Bytes = 4000
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
