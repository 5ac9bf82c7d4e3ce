SPECIFICATION Spec
INVARIANTS Disjoint Together Pairs
CHECK_DEADLOCK FALSE
