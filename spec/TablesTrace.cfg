SPECIFICATION Spec
INVARIANTS Complete1 Right Marked
CHECK_DEADLOCK FALSE
