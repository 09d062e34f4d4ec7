SPECIFICATION Spec
CONSTANT MaxAtoms = 4
INVARIANTS Described OrderFree Windows
CHECK_DEADLOCK FALSE
