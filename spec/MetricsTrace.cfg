SPECIFICATION TSpec
INVARIANTS OneMetricPerName OneCellPerLabels CellsNotShared Inherits
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
