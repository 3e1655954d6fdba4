INIT Init
NEXT Next
CONSTANTS
  Levels = {1, 2, 3}
  MaxLines = 4
  Mutant = "none"
INVARIANTS Under NoEmptyHeading Ascending Complete
CHECK_DEADLOCK FALSE
