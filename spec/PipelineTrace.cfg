CONSTANTS
    Stages = {}
    Kinds = {}
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
