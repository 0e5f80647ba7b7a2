SPECIFICATION MSpec
INVARIANT Exact
INVARIANT Local
CHECK_DEADLOCK FALSE
