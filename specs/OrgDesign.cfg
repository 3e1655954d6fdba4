INIT DInit
NEXT DNext
CONSTANTS
 MaxTok = 3
 Mutant = "none"
INVARIANTS Disjoint Sound Stable SetSane Written
CHECK_DEADLOCK FALSE
