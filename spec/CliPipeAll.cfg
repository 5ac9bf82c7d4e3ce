SPECIFICATION Spec
CONSTANTS
  Cfgs <- AllCfgs
  Inputs <- SomeInputs
  Blk = 3
  IovMax = 3
  Budget = 1
  Bug = "none"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
