SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reqs = {1, 2, 3}
 NFiles = 2
 Limit = 100
 Mutant = "none"
INVARIANTS Bounded Idle
