SPECIFICATION Spec
CONSTANT Len0 = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
