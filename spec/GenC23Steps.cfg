SPECIFICATION Spec
CONSTANT Sizes <- SizesOne
CONSTANT Len0 = 3
CONSTANT Small = TRUE
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
