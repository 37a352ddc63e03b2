SPECIFICATION Spec
VIEW view
INVARIANT Holds
CHECK_DEADLOCK FALSE
