SPECIFICATION MCSpec
CONSTANTS
  MaxRange = 3
  AllMuts = TRUE
VIEW MCView
INVARIANTS Linear Serves
PROPERTIES Grows
CHECK_DEADLOCK FALSE
