SPECIFICATION GenSpec
CONSTANT Sizes <- SizesAll
CONSTANT Len0 = 16
CONSTANT Small = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
