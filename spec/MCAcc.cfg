SPECIFICATION RSpec
CONSTANT Cases <- AccCases
CONSTANT Script <- AccScript
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT InstancesValid
INVARIANT LineagesCorrect
INVARIANT BackwardLaw
INVARIANT HydrateLaw
INVARIANT TranslateLaw
INVARIANT AttributionLaw
INVARIANT OrderLaw
INVARIANT CompatLaw
INVARIANT GoLensLaw
INVARIANT AppendLaw
PROPERTY Immutable
