SPECIFICATION DSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  Own = {"len", "state", "total"}
