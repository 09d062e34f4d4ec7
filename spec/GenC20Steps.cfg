SPECIFICATION Spec
CONSTANT Arrangements = {1}
CONSTANT Families <- AllCalc
CONSTANT Len0 = 3
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
