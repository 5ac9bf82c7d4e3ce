SPECIFICATION Spec
INVARIANTS LengthRight AnswerRight
CHECK_DEADLOCK FALSE
