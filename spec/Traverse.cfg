INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Same Once PostOrder Everybody
