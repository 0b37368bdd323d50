SPECIFICATION MCSpec
INVARIANT SizeOk
PROPERTIES Positive Withdrawn
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
