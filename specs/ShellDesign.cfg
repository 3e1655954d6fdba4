SPECIFICATION Spec
CONSTANTS
 Alphabet = {"'", "\"", "\\", "$", " ", "\n", "x", "-", "="}
 MaxLen = 4
 Mutant = "none"
 Gen = FALSE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
