SPECIFICATION TSpec
INVARIANT Typed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
