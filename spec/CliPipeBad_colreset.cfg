SPECIFICATION Spec
CONSTANTS
  Cfgs <- EncCfgs
  Inputs <- SomeInputs
  Blk = 3
  IovMax = 3
  Budget = 1
  Bug = "colreset"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Refines
CHECK_DEADLOCK FALSE
