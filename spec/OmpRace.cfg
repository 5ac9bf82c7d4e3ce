SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 3
  Own = {"len", "state", "total"}
VIEW View
INVARIANTS Right 
