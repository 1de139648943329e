SPECIFICATION RSpec
CONSTANTS
  Top = 2
  MaxLen = 5
INVARIANTS Exact Least Total
CHECK_DEADLOCK FALSE
