SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Perfect Rigid Symmetric Consistent Turned Conventional Decided
CHECK_DEADLOCK FALSE
