INIT Init
NEXT Next
CONSTRAINT Report
CHECK_DEADLOCK FALSE
