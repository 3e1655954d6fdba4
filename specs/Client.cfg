SPECIFICATION Spec
CONSTANTS
 Calls = {1, 2}
 Vals = {1}
 Statuses = {0, 3}
 MaxWire = 1
 Mutant = "none"
INVARIANTS OwnAnswer OnlyOwnErrors NothingSentForBad NoneLeft Reaped Status
PROPERTIES NoHang AnswerComes BreakEnds KillsOnlyWhenBroken Settles
CHECK_DEADLOCK FALSE
