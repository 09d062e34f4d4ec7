SPECIFICATION Spec
CONSTANT Nodes = 4
INVARIANTS Correct NeverMerge
PROPERTY Terminates
CHECK_DEADLOCK FALSE
