SPECIFICATION Spec
CONSTANTS
  NPlain = 150
  NOdd = 12
  NSrv = 8
  NRun = 200
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
