SPECIFICATION Spec
CONSTANTS
 Files = {1, 2, 3}
 MaxVer = 2
 MaxReq = 2
 Faults = TRUE
 Mutant = "none"
INVARIANTS OneSnapshot OneOutcome Complete ReadOnce OnDemand UpToDate NotBlocked
CHECK_DEADLOCK FALSE
