SPECIFICATION Spec
CONSTANT MaxRep = 3
INVARIANTS Coordination Composition Inverted Periodic
CHECK_DEADLOCK FALSE
