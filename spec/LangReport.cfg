SPECIFICATION Spec
VIEW view
CONSTRAINT Report
CHECK_DEADLOCK FALSE
