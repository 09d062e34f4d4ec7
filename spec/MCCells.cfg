SPECIFICATION Spec
CONSTANTS MaxL = 13
          MaxC = 6
INVARIANTS CellsExact Symmetric LeastImage Invariant1 SkewOK
CHECK_DEADLOCK FALSE
