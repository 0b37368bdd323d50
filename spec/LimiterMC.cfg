SPECIFICATION MCSpec
CONSTANT Big = 1000000000
INVARIANTS Bounded RateBound DueAhead
VIEW St
CONSTRAINT Small
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
