INIT Init
NEXT NoNext
CONSTANT Export = TRUE
CHECK_DEADLOCK FALSE
