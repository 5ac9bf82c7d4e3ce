SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Flags = {"0", "x", "y"}
  Calls = {1}
  Variant = "code"
  Pasts = {"auto", "x"}
  Opens = {FALSE, TRUE}
INVARIANTS NeverThroughNull Legal Agreement Forced
