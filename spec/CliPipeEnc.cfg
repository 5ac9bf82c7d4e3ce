SPECIFICATION Spec
CONSTANTS
  Cfgs <- EncCfgs
  Inputs <- LongInputs
  Blk = 4
  IovMax = 3
  Budget = 1
  Bug = "none"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Ends
CHECK_DEADLOCK FALSE
