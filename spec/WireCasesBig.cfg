SPECIFICATION Spec
CONSTANTS
  NReq = 6000
  NRaw = 8000
  NResp = 8000
  NPin = 2000
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
