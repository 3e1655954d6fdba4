SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mutant = "none"
 MaxSet = 3
INVARIANTS Promise Total
