SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxD = 5
INVARIANTS FiltersPartition NearestUnique AdaptiveMono SannDef SannDevDiffers
CHECK_DEADLOCK FALSE
