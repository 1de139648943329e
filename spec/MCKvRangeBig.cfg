SPECIFICATION RSpec
CONSTANTS
  Top = 3
  MaxLen = 5
INVARIANTS Exact Least Total
CHECK_DEADLOCK FALSE
