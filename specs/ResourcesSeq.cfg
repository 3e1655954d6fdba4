SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Reqs = {1, 2, 3, 4}
 NFiles = 2
 Limit = 3
 Mutant = "none"
CONSTRAINT OneAtATime
INVARIANTS Bounded Idle One
