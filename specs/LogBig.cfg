SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2, 3}
 MaxMsg = 2
 MaxAlien = 1
 Mutant = "none"
INVARIANTS InPlace AlienKept NotServed
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
