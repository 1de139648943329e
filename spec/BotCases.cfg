SPECIFICATION Spec
CONSTANTS
  NPlain = 30
  NOdd = 2
  NSrv = 1
  NRun = 20
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
