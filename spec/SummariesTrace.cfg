SPECIFICATION TSpec
INVARIANT SizeOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
