SPECIFICATION Spec
INVARIANT Report1
CHECK_DEADLOCK FALSE
