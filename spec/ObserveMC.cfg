SPECIFICATION MCSpec
INVARIANT NoneOfOthers
PROPERTY FirstWins
PROPERTY LinesKept
PROPERTY SpansKept
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
