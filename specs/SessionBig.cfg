SPECIFICATION Spec
CONSTANTS
  Kinds = {"ok", "gated", "bad", "trunc"}
  MaxItems = 5
  Mutant = "none"
INVARIANTS OutWellFormed AtMostOnce ExitComplete
PROPERTY Refines
CHECK_DEADLOCK FALSE
