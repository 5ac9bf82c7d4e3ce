SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builds <- FewBuilds
  MaxLeaves = {0, 1, 6, 7, 13}
  Xcr0s <- Chain
  Variant = "novbmi"
INVARIANTS Safe IsBest NoIllegalInstruction
