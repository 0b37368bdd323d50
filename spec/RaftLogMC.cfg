SPECIFICATION MCSpec
INVARIANTS Contiguous TermsGrow NeverBehind SnapshotsNamed
PROPERTIES AppliedKept AppliedForward
CONSTANT N = 3
VIEW St
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
