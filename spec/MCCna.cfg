SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Perfect Rigid Symmetric Consistent Turned Conventional Decided
CHECK_DEADLOCK FALSE
