SPECIFICATION Spec
CONSTANT Lens = {3, 4, 5}
CONSTANT Tilts <- TT
CONSTANT Coords <- TC
CONSTANT Origins <- QO
INVARIANTS RoundTrip OrderOfColumns Origin Fractions
CHECK_DEADLOCK FALSE
