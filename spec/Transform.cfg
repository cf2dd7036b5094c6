INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SameText SameTextAbove Idempotent Stripped
