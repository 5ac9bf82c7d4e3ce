SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  Own = {"state", "total"}
VIEW View
INVARIANTS Right 
