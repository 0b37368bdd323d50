SPECIFICATION TSpec
CONSTANTS Ring = 8 Small = 3 Base = 2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
