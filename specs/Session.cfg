SPECIFICATION Spec
CONSTANTS
  Kinds = {"ok", "gated", "bad", "trunc"}
  MaxItems = 3
  Mutant = "none"
INVARIANTS OutWellFormed AtMostOnce ExitComplete
PROPERTY Refines
CHECK_DEADLOCK FALSE
