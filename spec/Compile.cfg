INIT Init
NEXT Next
INVARIANTS NoSilentFailure FatalStops NotAfterFatal
CHECK_DEADLOCK FALSE
