INIT Init
NEXT Next
CONSTANTS
 MaxPath = 4096
 Mutant = "none"
INVARIANT Wellformed
CHECK_DEADLOCK FALSE
