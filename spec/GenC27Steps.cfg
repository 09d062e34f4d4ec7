SPECIFICATION Spec
CONSTANT Arrangements = {2}
CONSTANT Families <- AllBad
CONSTANT Len0 = 3
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
