SPECIFICATION MCSpec
INVARIANTS Bounded Distinct Ascending
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
