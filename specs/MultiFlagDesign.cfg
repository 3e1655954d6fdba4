SPECIFICATION Spec
CONSTANTS
 Values = {"", "a", "b"}
 MaxLen = 5
 MaxDefaults = 2
 Mutant = "none"
 Gen = FALSE
INVARIANTS Effective Replayed NothingLost
CHECK_DEADLOCK FALSE
