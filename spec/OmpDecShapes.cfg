SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "dec"
  Syms = {81}
  MinLen = 0
  MaxLen = 0
  Texts <- Shapes
  Threads = {1, 2, 3}
  CheckMiddle = TRUE
INVARIANTS SameAsSerial PartsFit
PROPERTY Returns
