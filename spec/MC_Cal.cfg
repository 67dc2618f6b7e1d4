SPECIFICATION Spec
INVARIANTS FirstDay Counted Standard LocalTime Invalid
CHECK_DEADLOCK FALSE
