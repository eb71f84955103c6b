SPECIFICATION TraceSpec
INVARIANT Sane
CHECK_DEADLOCK FALSE
