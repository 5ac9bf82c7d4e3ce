SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Flags = {"0", "x", "y"}
  Calls = {1, 2}
  Variant = "reset"
  Pasts = {"auto", "x"}
  Opens = {FALSE, TRUE}
INVARIANTS NeverThroughNull Legal Agreement Forced
