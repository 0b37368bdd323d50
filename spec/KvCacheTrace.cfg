SPECIFICATION TSpec
INVARIANTS Bounded Distinct
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
