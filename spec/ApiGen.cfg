INIT Init
NEXT Next
CONSTRAINT Out
CHECK_DEADLOCK FALSE
