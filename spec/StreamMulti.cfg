SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {h1, h2}
  Avail = {"plain"}
  Bytes = {81, 61}
  MaxChunk = 1
  MaxTotal = 3
  Flags = {0, 8, 1}
  Kinds = {"enc", "dec", "copy", "once"}
INVARIANTS EncodedIsDetermined DecodedIsDetermined SelectionLegal
PROPERTIES StaysClosed Isolated
