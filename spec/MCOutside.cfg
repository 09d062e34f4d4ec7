SPECIFICATION Spec
CONSTANT N = 3
CONSTANT MaxId = 4
CONSTANT MaxDraw = 2
INVARIANTS OwnEnergy NoneBefore NoFileLeft FiguresAlike
CHECK_DEADLOCK FALSE
