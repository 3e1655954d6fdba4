SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mutant = "none"
 MaxSet = 4
INVARIANTS Promise Total
