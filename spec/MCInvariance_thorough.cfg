SPECIFICATION Spec
CONSTANTS Edges = {3, 4}
 Tilts = {0, 1}
 Depth = 2
INVARIANTS Described SameAround Strict
CHECK_DEADLOCK FALSE
