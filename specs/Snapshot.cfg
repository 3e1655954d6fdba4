SPECIFICATION Spec
CONSTANTS
 Files = {1, 2}
 MaxVer = 2
 MaxReq = 3
 Faults = TRUE
 Mutant = "none"
INVARIANTS OneSnapshot OneOutcome Complete ReadOnce OnDemand UpToDate NotBlocked
CHECK_DEADLOCK FALSE
