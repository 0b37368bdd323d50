SPECIFICATION TSpec
INVARIANT PortsOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
