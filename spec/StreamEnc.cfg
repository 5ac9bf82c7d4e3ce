SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {h1}
  Avail = {"plain", "avx2"}
  Bytes = {0, 77, 255}
  MaxChunk = 3
  MaxTotal = 7
  Flags = {0, 8}
  Kinds = {"enc"}
INVARIANTS EncodedIsDetermined SelectionLegal
PROPERTIES Isolated
