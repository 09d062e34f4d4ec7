SPECIFICATION GenSpec
CONSTANT Len0 = 24
INVARIANT Emit
INVARIANT Sizes
INVARIANT Places
CHECK_DEADLOCK FALSE
