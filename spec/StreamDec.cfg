SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {h1}
  Avail = {"plain", "avx2"}
  Bytes = {65, 47, 61, 33}
  MaxChunk = 3
  MaxTotal = 7
  Flags = {0}
  Kinds = {"dec"}
INVARIANTS DecodedIsDetermined SelectionLegal
PROPERTIES StaysClosed Isolated
