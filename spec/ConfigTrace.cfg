INIT TInit
NEXT TNext
CONSTANTS
  Threads = {"A", "B", "C"}
  Keys = {"r", "s", "f", "n"}
  Values = {"i5"}
CHECK_DEADLOCK FALSE
