SPECIFICATION MSpec
INVARIANT CodesTell
ACTION_CONSTRAINT EdgeOut
VIEW St
CHECK_DEADLOCK FALSE
