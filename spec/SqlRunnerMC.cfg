SPECIFICATION MSpec
INVARIANT PortsOk
PROPERTY Wellformed
ACTION_CONSTRAINT EdgeOut
VIEW St
CHECK_DEADLOCK FALSE
