SPECIFICATION Spec
INVARIANT Inv
CONSTANT MAXN = 11000
CHECK_DEADLOCK FALSE
