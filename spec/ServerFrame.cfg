CONSTANTS
  Bodies = {0, 1, 3}
  HEAD = 2
  MaxMessages = 3
SPECIFICATION Spec
INVARIANT Framed
PROPERTY Delivered
CHECK_DEADLOCK FALSE
