SPECIFICATION MSpec
CONSTANTS Ring = 8 Small = 3 Base = 2 MaxLen = 4
INVARIANT ReadsBack
INVARIANT Fits
ACTION_CONSTRAINT EdgeOut
VIEW View
CHECK_DEADLOCK FALSE
