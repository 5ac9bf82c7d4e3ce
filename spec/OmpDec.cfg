SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "dec"
  Syms = {81, 61, 33}
  MinLen = 7
  MaxLen = 9
  Texts <- Words
  Threads = {1, 2}
  CheckMiddle = TRUE
INVARIANTS SameAsSerial PartsFit
