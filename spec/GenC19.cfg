SPECIFICATION GenSpec
CONSTANT Arrangements = {1, 2, 3, 4}
CONSTANT Families <- ForAtoms
CONSTANT Len0 = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
