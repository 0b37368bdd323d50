SPECIFICATION Spec
INVARIANTS RoundTrip NeverOut Chain Arith
CHECK_DEADLOCK FALSE
