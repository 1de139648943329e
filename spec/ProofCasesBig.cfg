SPECIFICATION Spec
CONSTANTS
  Pairs = 20000
  Crafted = 20000
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
