SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT Sound
INVARIANT Justified
