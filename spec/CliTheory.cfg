SPECIFICATION Spec
CONSTANTS
  Symbols = {65, 47, 61, 10, 33}
  MaxLen = 6
  Widths = {0, 1, 2, 3, 4, 5, 7, 8, 76}
INVARIANTS WrapIsWrap ThereAndBack RawBack Pieces Monotone
CHECK_DEADLOCK FALSE
