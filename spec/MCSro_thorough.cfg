SPECIFICATION Spec
CONSTANT N = 5
CONSTANT MaxNb = 4
INVARIANTS AtMostOne ZeroByChance Full SumRule DeltaRule Shells Fractions
CHECK_DEADLOCK FALSE
