SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reqs = {1, 2}
 Mutant = "none"
INVARIANTS Honest Clean OnePipe
PROPERTIES Ends TermEnds
