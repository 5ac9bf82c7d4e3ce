SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "enc"
  MaxLen = 2
  Symbols <- Byte
INVARIANTS EncodeIsRfc ReadBack
