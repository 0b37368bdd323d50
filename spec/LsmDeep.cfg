CONSTANTS
  Series = {1, 2}
  Times = {1, 2}
  Fields = {1, 2}
  MaxOps = 5
SPECIFICATION MCSpec
INVARIANTS Faithful Replayable CrashSafe
VIEW St
CHECK_DEADLOCK FALSE
