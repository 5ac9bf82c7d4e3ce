SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "dec"
  Syms = {81, 61}
  MinLen = 8
  MaxLen = 8
  Texts <- Words
  Threads = {2}
  CheckMiddle = FALSE
INVARIANTS SameAsSerial PartsFit
