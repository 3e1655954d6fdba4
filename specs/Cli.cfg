SPECIFICATION Spec
CONSTANT Mutant = "none"
INVARIANTS EndOk ReapsAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
