INIT Init
NEXT Next
CONSTANTS
  Threads = {t1, t2}
  Keys = {"r", "f"}
  Values = {"i5", "i11"}
INVARIANTS OwnValue Valid FreshThread
PROPERTY Isolation
CHECK_DEADLOCK FALSE
