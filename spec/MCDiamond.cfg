SPECIFICATION Spec
CONSTANT Atoms = 3
INVARIANTS Correct CoresStay
CHECK_DEADLOCK FALSE
