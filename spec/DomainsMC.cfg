SPECIFICATION MCSpec
INVARIANTS Closed
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
