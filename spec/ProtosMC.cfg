INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANT Reads
INVARIANT RoundTrip
INVARIANT SkipsUnknown
INVARIANT Halves
CHECK_DEADLOCK FALSE
