SPECIFICATION Spec
CONSTANTS
  Cfgs <- AllCfgs
  Inputs <- LongInputs
  Blk = 5
  IovMax = 2
  Budget = 2
  Bug = "none"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Refines
CHECK_DEADLOCK FALSE
