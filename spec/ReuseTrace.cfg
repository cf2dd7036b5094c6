INIT RInit
NEXT RNext
CHECK_DEADLOCK FALSE
