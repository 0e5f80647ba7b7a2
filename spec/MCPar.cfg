SPECIFICATION PSpec
INVARIANT Exclusive
INVARIANT Alike
PROPERTY Ends
