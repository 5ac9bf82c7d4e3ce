SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  Own = {"len", "total"}
VIEW View
INVARIANTS Right 
