SPECIFICATION Spec
CONSTANTS
 Kinds = {"capture", "visit", "refuse", "preview"}
 NReq = 2
 NUser = 1
 Cap = 4
 Mutant = "none"
INVARIANTS OwnArguments InOrder NothingForRefused Honest
PROPERTY Settled
CHECK_DEADLOCK FALSE
