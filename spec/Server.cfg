CONSTANTS
  Ids = {"1", "2"}
  Max = 4
  Strict = TRUE
SPECIFICATION Spec
INVARIANTS Once Only LifeCycle Over
CHECK_DEADLOCK FALSE
