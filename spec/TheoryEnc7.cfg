SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "enc"
  MaxLen = 7
  Symbols = {0, 3, 77, 192, 251, 255}
INVARIANTS EncodeIsRfc ReadBack
