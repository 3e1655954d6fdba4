INIT LInit
NEXT LNext
CONSTANTS
 MaxTok = 2
 MaxPref = 3
 Mutant = "none"
INVARIANTS NoLeak NoData Compose SetSane
CHECK_DEADLOCK FALSE
