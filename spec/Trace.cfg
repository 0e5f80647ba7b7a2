SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANT InstancesValid
INVARIANT LineagesCorrect
POSTCONDITION TraceAccepted
