SPECIFICATION DumpSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builds <- AllBuilds
  MaxLeaves = {0, 1, 6, 7, 13}
  Xcr0s <- AllXcr0s
  Variant = "code"
