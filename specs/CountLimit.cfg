INIT Init
NEXT Next
CONSTANTS
  LeafSizes = {1, 2}
  Urls = {"a", "b"}
  MaxWidth = 2
  MaxTarget = 6
  Depth = 2
  Mutant = "none"
INVARIANTS WithinLimit NonEmpty HidesNothing LargestKept
CHECK_DEADLOCK FALSE
