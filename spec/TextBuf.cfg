INIT Init
NEXT Next
CONSTANTS
  MaxText = 4
  MaxNew = 2
CONSTRAINT Bound
INVARIANT Agree
PROPERTY Advances
CHECK_DEADLOCK FALSE
