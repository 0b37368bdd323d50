SPECIFICATION TSpec
CONSTANT Big = 1000000000
INVARIANTS Bounded RateBound DueAhead
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
