SPECIFICATION Spec
CONSTANTS MaxLen = 7
          MaxD = 6
INVARIANTS FiltersPartition NearestUnique AdaptiveMono SannDef SannDevDiffers
CHECK_DEADLOCK FALSE
