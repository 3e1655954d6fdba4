INIT DInit
NEXT DNext
CONSTANTS
 MaxTok = 4
 Mutant = "none"
INVARIANTS Sound Local Written
CHECK_DEADLOCK FALSE
