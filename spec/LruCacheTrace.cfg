SPECIFICATION TSpec
INVARIANTS Bounded UniqueKeys RightShard
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
