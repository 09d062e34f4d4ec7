SPECIFICATION Spec
CONSTANTS MaxBonds = 3
          MaxS = 4
          Ls = {2, 3, 6, 11, 12}
INVARIANTS UnitLength InRange OneBond Rotations OddVanish OrderFree WeightsAgree Bounded Parts CountExact ThresholdMonotone BondsMonotone FractionIsCount
CHECK_DEADLOCK FALSE
