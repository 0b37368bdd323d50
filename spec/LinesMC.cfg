SPECIFICATION MCSpec
CONSTANTS MaxLen = 7
INVARIANTS Same NoEnd
CHECK_DEADLOCK FALSE
