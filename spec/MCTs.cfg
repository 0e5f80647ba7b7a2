SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Defaults
