SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builds <- FewBuilds
  MaxLeaves = {0, 7}
  Xcr0s <- Chain
  Variant = "code"
PROPERTY Decides
