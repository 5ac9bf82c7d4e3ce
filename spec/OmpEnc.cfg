SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "enc"
  Syms = {0, 77, 255}
  MinLen = 0
  MaxLen = 8
  Texts <- Words
  Threads = {1, 2, 3}
  CheckMiddle = TRUE
INVARIANTS SameAsSerial PartsFit
