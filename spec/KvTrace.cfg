SPECIFICATION TSpec
CONSTANT Top = 255
CHECK_DEADLOCK FALSE
