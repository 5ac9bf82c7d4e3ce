INIT Init
NEXT Next
INVARIANT SameGrammar
CHECK_DEADLOCK FALSE
