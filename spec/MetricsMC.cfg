SPECIFICATION MCSpec
INVARIANTS OneMetricPerName OneCellPerLabels CellsNotShared Inherits
PROPERTY ReportPure
VIEW St
CONSTRAINT Short
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
