INIT Init
NEXT Next
CONSTANTS
  MaxCalls = 1
  Mutant = "none"
INVARIANTS OutcomeInv StartsInv AliasInv
CHECK_DEADLOCK FALSE
