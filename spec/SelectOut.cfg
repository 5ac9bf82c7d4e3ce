SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Flags = {"0", "x", "y"}
  Calls = {1, 2}
  Variant = "code"
  Pasts = {"null", "auto", "x", "y"}
  Opens = {FALSE, TRUE}
INVARIANT Outcome
