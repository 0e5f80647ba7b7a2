SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT Answered
INVARIANT HoldsAll
