SPECIFICATION Spec
CONSTANTS
  Cfgs <- DecCfgs
  Inputs <- SomeInputs
  Blk = 3
  IovMax = 3
  Budget = 1
  Bug = "none"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Ends
CHECK_DEADLOCK FALSE
