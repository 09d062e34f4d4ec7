SPECIFICATION GenSpec
CONSTANT Arrangements = {1, 2, 3}
CONSTANT Families <- ForResults
CONSTANT Len0 = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
