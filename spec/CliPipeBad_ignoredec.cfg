SPECIFICATION Spec
CONSTANTS
  Cfgs <- DecCfgs
  Inputs <- SomeInputs
  Blk = 3
  IovMax = 3
  Budget = 1
  Bug = "ignoredec"
INVARIANTS AlwaysPrefix SuccessIsComplete OnlyFaultsFail Offered
PROPERTIES Refines
CHECK_DEADLOCK FALSE
