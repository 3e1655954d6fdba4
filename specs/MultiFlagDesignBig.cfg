SPECIFICATION Spec
CONSTANTS
 Values = {"", "a", "b"}
 MaxLen = 7
 MaxDefaults = 3
 Mutant = "none"
 Gen = FALSE
INVARIANTS Effective Replayed NothingLost
CHECK_DEADLOCK FALSE
