SPECIFICATION MSpec
INVARIANT Loads
CHECK_DEADLOCK FALSE
