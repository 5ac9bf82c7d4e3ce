SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {h1}
  Avail = {"plain", "avx2"}
  Flags = {0, 1, 4, 8, 16, 256, 264, 512, 520, 65536, 65544}
INVARIANT MissingAnswers
PROPERTIES Obeyed Sticky NeverUnset MissingIsInert
