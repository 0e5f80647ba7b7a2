SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT TextLaw
INVARIANT OrderLaw
