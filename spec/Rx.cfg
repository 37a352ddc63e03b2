SPECIFICATION Spec
INVARIANT Conserved
CONSTRAINT Report
CHECK_DEADLOCK FALSE
