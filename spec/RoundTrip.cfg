SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOneOwed NeverRejected FinalCompletes OpenIsOpen
