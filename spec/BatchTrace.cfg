CONSTANTS
    N = 1
    Workers = 1
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
