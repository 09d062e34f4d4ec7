SPECIFICATION Spec
CONSTANTS MaxBonds = 4
          MaxS = 6
          Ls = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANTS UnitLength InRange OneBond Rotations OddVanish OrderFree WeightsAgree Bounded Parts CountExact ThresholdMonotone BondsMonotone FractionIsCount
CHECK_DEADLOCK FALSE
