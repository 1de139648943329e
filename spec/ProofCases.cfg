SPECIFICATION Spec
CONSTANTS
  Pairs = 1500
  Crafted = 1500
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
