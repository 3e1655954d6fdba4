SPECIFICATION Spec
CONSTANTS
 Wanted = 420
 Modes = {0, 64, 128, 192, 256, 320, 384, 448, 420, 436, 493, 511, 73, 146, 292}
 Mutant = "none"
 MaxFaults = 4
INVARIANTS EveryMoment InTheEnd Atomic AtomicEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
