SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = "dec"
  MaxLen = 9
  Symbols = {65, 47, 61, 33}
INVARIANTS AcceptIsWellFormed DecodeIsRfc
