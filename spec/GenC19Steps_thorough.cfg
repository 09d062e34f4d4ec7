SPECIFICATION Spec
CONSTANT Arrangements = {2}
CONSTANT Families <- AllAtoms
CONSTANT Len0 = 4
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
