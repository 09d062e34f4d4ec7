SPECIFICATION Spec
CONSTANT Lens = {3, 5}
CONSTANT Tilts <- QT
CONSTANT Coords <- QC
CONSTANT Origins <- QO
INVARIANTS RoundTrip OrderOfColumns Origin Fractions
CHECK_DEADLOCK FALSE
