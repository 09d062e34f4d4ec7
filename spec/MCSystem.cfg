SPECIFICATION Spec
CONSTANT Arrangements = {1}
CONSTANT Families <- All
CONSTANT Len0 = 4
VIEW View
INVARIANTS RecipesOK Inert TouchOK Modest
CHECK_DEADLOCK FALSE
