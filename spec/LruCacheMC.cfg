SPECIFICATION MCSpec
INVARIANTS Bounded UniqueKeys RightShard
PROPERTY EvictsOldest
VIEW MCView
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
