SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {}
  Avail = {}
