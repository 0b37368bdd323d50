CONSTANTS
  Series = {1, 2}
  Times = {1}
  Fields = {1, 2}
  MaxOps = 4
SPECIFICATION MCSpec
INVARIANTS Faithful Replayable CrashSafe
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
