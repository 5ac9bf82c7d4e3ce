SPECIFICATION Spec
CONSTANT Export = FALSE
INVARIANTS Some HelpFirst UnknownFirst DecodeFirst LongIsShort LastWidthWins TooMany
CHECK_DEADLOCK FALSE
