SPECIFICATION TSpec
INVARIANTS ClientsRight Agreement
CHECK_DEADLOCK FALSE
