INIT TInit
NEXT TNext
CONSTANTS
  MaxText = 4
  MaxNew = 2
CHECK_DEADLOCK FALSE
