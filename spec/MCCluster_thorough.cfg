SPECIFICATION Spec
CONSTANT Nodes = 5
INVARIANTS Correct NeverMerge
PROPERTY Terminates
CHECK_DEADLOCK FALSE
