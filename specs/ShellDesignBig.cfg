SPECIFICATION Spec
CONSTANTS
 Alphabet = {"'", "\"", "\\", "$", " ", "\n", "x", "-", "="}
 MaxLen = 5
 Mutant = "none"
 Gen = FALSE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
