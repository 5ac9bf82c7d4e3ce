SPECIFICATION Spec
CONSTANT B = 9
INVARIANTS Arith Lengths Periodic NoCutRight RoundsBenign Adequate
CHECK_DEADLOCK FALSE
