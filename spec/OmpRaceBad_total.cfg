SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 2
  Own = {"len", "state"}
VIEW View
INVARIANTS Right 
