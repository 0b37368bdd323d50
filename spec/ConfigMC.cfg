SPECIFICATION MCSpec
INVARIANTS Typed EnvWins FileNext Checked
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
