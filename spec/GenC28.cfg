SPECIFICATION GenSpec
CONSTANT Arrangements = {1, 2, 3}
CONSTANT Families <- ForQueries
CONSTANT Len0 = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
