SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reqs = {1, 2, 3, 4}
 NFiles = 2
 Limit = 4
 Mutant = "none"
INVARIANTS Bounded Idle
