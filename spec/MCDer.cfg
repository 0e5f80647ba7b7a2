SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
