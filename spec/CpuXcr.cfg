SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builds <- FewBuilds
  MaxLeaves = {0, 1, 6, 7, 13}
  Xcr0s <- AllXcr0s
  Variant = "code"
INVARIANTS Safe IsBest NoIllegalInstruction
