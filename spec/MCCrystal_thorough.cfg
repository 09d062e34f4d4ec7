SPECIFICATION Spec
CONSTANT MaxRep = 5
INVARIANTS Coordination Composition Inverted Periodic
CHECK_DEADLOCK FALSE
