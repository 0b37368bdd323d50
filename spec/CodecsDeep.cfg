SPECIFICATION MSpec
CONSTANTS Ring = 16 Small = 5 Base = 2 MaxLen = 5
INVARIANT ReadsBack
INVARIANT Fits
VIEW View
CHECK_DEADLOCK FALSE
