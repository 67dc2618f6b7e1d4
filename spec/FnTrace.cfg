SPECIFICATION Spec
INVARIANT Rows
CHECK_DEADLOCK FALSE
