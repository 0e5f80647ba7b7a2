SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Good
