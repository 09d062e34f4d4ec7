SPECIFICATION Spec
INVARIANT Inv
CONSTANT MAXN = 2500
CHECK_DEADLOCK FALSE
