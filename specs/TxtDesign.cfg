INIT DInit
NEXT DNext
CONSTANTS
 MaxTok = 3
 Mutant = "none"
INVARIANTS Sound Local Written
CHECK_DEADLOCK FALSE
