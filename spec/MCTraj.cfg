SPECIFICATION Spec
CONSTANT Sizes <- SizesOne
CONSTANT Len0 = 4
CONSTANT Small = TRUE
VIEW View
INVARIANTS SlicesOK Inert SliceLaws
CHECK_DEADLOCK FALSE
