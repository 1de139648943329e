SPECIFICATION Spec
CONSTANTS
  NReq = 600
  NRaw = 800
  NResp = 800
  NPin = 200
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
