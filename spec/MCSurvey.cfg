SPECIFICATION Spec
CONSTANT MaxAtoms = 3
INVARIANTS Described OrderFree Windows
CHECK_DEADLOCK FALSE
