SPECIFICATION LiveSpec
CONSTANTS
  Kinds = {"ok", "gated", "bad", "trunc"}
  MaxItems = 2
  Mutant = "none"
PROPERTIES Ends Answered
CHECK_DEADLOCK FALSE
