SPECIFICATION Spec
CONSTANTS
  Hdr = 2
  MaxVal = 2
  MaxWs = 1
  MaxFrames = 2
  Buf = 3
  Mutant = "none"
INVARIANTS OwnBytes InOrder
PROPERTY AllServed
CHECK_DEADLOCK FALSE
