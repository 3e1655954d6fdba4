SPECIFICATION Spec
CONSTANTS
 Kinds = {"capture", "visit", "refuse"}
 NReq = 3
 NUser = 1
 Cap = 4
 Mutant = "none"
INVARIANTS OwnArguments InOrder NothingForRefused Honest
CHECK_DEADLOCK FALSE
