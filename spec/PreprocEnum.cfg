INIT Init
NEXT Next
CONSTANT MaxItems = 4
INVARIANT Agrees
INVARIANT Faith
INVARIANT Clean
CHECK_DEADLOCK FALSE
