INIT Init
NEXT Next
CONSTANTS
  Levels = {1, 2, 4}
  MaxLines = 6
  Mutant = "none"
INVARIANTS Under NoEmptyHeading Ascending Complete
CHECK_DEADLOCK FALSE
