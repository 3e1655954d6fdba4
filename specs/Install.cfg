SPECIFICATION Spec
CONSTANTS
 Wanted = 493
 Modes = {0, 256, 128, 384, 448, 420, 493, 511}
 Mutant = "none"
 MaxFaults = 2
INVARIANTS EveryMoment InTheEnd Atomic AtomicEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
