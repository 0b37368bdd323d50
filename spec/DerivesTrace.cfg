SPECIFICATION TSpec
INVARIANT CodesTell
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
