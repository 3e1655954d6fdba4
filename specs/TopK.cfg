INIT TInit
NEXT TNext
CONSTANTS
 Items = {1, 2, 3, 4}
 MaxArrive = 6
 K = 3
 Mutant = "none"
INVARIANT Best
CHECK_DEADLOCK FALSE
