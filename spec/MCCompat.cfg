SPECIFICATION RSpec
CONSTANT Cases <- CompatCases
CONSTANT Script <- CompatScript
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT InstancesValid
INVARIANT LineagesCorrect
INVARIANT BackwardLaw
INVARIANT HydrateLaw
INVARIANT TranslateLaw
INVARIANT AttributionLaw
INVARIANT OrderLaw
INVARIANT CompatLaw
INVARIANT GoLensLaw
INVARIANT AppendLaw
PROPERTY Immutable
