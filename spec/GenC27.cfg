SPECIFICATION GenSpec
CONSTANT Arrangements = {1, 2, 3}
CONSTANT Families <- ForRefusals
CONSTANT Len0 = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
