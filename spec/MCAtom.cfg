SPECIFICATION Spec
CONSTANT Len0 = 3
INVARIANT Local
INVARIANT Sizes
INVARIANT RoundTrip
INVARIANT Places
CHECK_DEADLOCK FALSE
