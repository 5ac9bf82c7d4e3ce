SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Flags = {"0", "x", "y"}
  Calls = {1, 2}
  Variant = "code"
  Pasts = {"null"}
  Opens = {FALSE}
INVARIANTS NeverThroughNull Legal Agreement Forced
