SPECIFICATION MCSpec
PROPERTY Isolated
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
