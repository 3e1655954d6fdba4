SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 MaxMsg = 2
 MaxAlien = 2
 Mutant = "none"
INVARIANTS InPlace AlienKept NotServed
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
