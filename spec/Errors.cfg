CONSTANTS
    Codes = {100, 1000}
    MaxErrors = 2
INIT Init
NEXT Next
INVARIANTS Once InOrder FlagMax Consistent Found Inverse
CHECK_DEADLOCK FALSE
