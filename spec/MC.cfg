SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
ALIAS Show
CONSTRAINT Bounded
