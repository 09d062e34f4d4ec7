SPECIFICATION Spec
CONSTANT N = 4
CONSTANT MaxNb = 3
INVARIANTS AtMostOne ZeroByChance Full SumRule DeltaRule Shells Fractions
CHECK_DEADLOCK FALSE
