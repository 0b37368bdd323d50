SPECIFICATION Spec
CONSTANTS
  Area = "where"
  MaxHw = 11
INVARIANT Inv
INVARIANT Allowed
PROPERTY Stays
PROPERTY Gone
PROPERTY Emptied
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
