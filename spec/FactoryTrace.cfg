CONSTANTS
    Threads = {}
    Facts = {}
    MaxObj = 0
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
