INIT FInit
NEXT FNext
CONSTANTS
 Letters = {1, 2}
 MaxP = 3
 MaxT = 3
 Mutant = "none"
INVARIANTS Lower0 Same
CHECK_DEADLOCK FALSE
