SPECIFICATION GenSpec
CONSTANTS
  MaxRange = 3
  AllMuts = FALSE
VIEW MCView
INVARIANTS Linear Serves
PROPERTIES Grows
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
