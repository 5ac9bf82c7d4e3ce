SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builds <- AllBuilds
  MaxLeaves = {0, 1, 6, 7, 13}
  Xcr0s <- Chain
  Variant = "code"
INVARIANTS Safe IsBest NoIllegalInstruction
