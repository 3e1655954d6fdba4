SPECIFICATION Spec
CONSTANTS
 Calls = {1, 2, 3}
 Vals = {1}
 Statuses = {0, 3}
 MaxWire = 2
 Mutant = "none"
INVARIANTS OwnAnswer OnlyOwnErrors NothingSentForBad NoneLeft Reaped Status
PROPERTIES KillsOnlyWhenBroken Settles
CHECK_DEADLOCK FALSE
