SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "dec"
  MaxLen = 2
  Symbols <- Byte
INVARIANTS AcceptIsWellFormed DecodeIsRfc
