SPECIFICATION Spec
CONSTANTS
  Hdr = 2
  MaxVal = 3
  MaxWs = 2
  MaxFrames = 2
  Buf = 4
  Mutant = "none"
INVARIANTS OwnBytes InOrder
PROPERTY AllServed
CHECK_DEADLOCK FALSE
