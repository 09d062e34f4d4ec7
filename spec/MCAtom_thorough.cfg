SPECIFICATION Spec
CONSTANT Len0 = 4
INVARIANT Local
INVARIANT Sizes
INVARIANT RoundTrip
INVARIANT Places
CHECK_DEADLOCK FALSE
