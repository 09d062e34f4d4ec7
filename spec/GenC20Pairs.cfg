SPECIFICATION PairSpec
CONSTANT Arrangements = {1}
CONSTANT Families <- ForPairs
CONSTANT Len0 = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
