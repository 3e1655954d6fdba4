INIT LInit
NEXT LNext
CONSTANTS
 MaxTok = 3
 MaxPref = 3
 Mutant = "none"
INVARIANTS NoLeak NoData Compose SetSane
CHECK_DEADLOCK FALSE
