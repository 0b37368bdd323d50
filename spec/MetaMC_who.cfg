SPECIFICATION Spec
CONSTANTS
  Area = "who"
  MaxHw = 7
INVARIANT Inv
INVARIANT Allowed
PROPERTY Stays
PROPERTY Gone
PROPERTY Emptied
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
