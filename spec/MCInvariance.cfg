SPECIFICATION Spec
CONSTANTS Edges = {3}
 Tilts = {1}
 Depth = 2
INVARIANTS Described SameAround Strict
CHECK_DEADLOCK FALSE
