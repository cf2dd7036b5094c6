CONSTANTS
    Codes = {}
    MaxErrors = 0
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
