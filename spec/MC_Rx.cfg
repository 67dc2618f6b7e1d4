SPECIFICATION Spec
INVARIANTS NeverBack IsReading Highest
CHECK_DEADLOCK FALSE
