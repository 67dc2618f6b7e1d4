SPECIFICATION Spec
INVARIANT Fine
CHECK_DEADLOCK FALSE
