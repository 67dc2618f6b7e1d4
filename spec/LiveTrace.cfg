SPECIFICATION LiveSpec
VIEW TraceView
INVARIANT Report1
CHECK_DEADLOCK FALSE
