SPECIFICATION Spec
CONSTANT N = 4
CONSTANT MaxId = 5
CONSTANT MaxDraw = 3
INVARIANTS OwnEnergy NoneBefore NoFileLeft FiguresAlike
CHECK_DEADLOCK FALSE
