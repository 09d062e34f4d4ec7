SPECIFICATION Spec
CONSTANTS MaxL = 24
          MaxC = 12
INVARIANTS CellsExact Symmetric LeastImage Invariant1 SkewOK
CHECK_DEADLOCK FALSE
