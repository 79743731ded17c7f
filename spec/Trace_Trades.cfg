SPECIFICATION TraceSpec
INVARIANT Judge
CHECK_DEADLOCK FALSE
