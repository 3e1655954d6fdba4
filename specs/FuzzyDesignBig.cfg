INIT FInit
NEXT FNext
CONSTANTS
 Letters = {1, 2}
 MaxP = 4
 MaxT = 4
 Mutant = "none"
INVARIANTS Lower0 Same
CHECK_DEADLOCK FALSE
