SPECIFICATION Spec
INVARIANT Meaningful
INVARIANT Emit
CHECK_DEADLOCK FALSE
