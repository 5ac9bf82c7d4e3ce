SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 130
  Weak = 0
  Leak = {}
INVARIANTS ReadsInside WritesInside DataRight Frame
