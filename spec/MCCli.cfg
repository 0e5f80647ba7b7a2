SPECIFICATION CSpec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Usable Explicit Refused Emit
