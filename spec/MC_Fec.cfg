SPECIFICATION Spec
INVARIANTS Linear TablesTrue Separate NotAnOffset Delivered Corrects Distinct
CHECK_DEADLOCK FALSE
