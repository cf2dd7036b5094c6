CONSTANTS
    N = 4
    Workers = 2
SPECIFICATION Spec
INVARIANTS InOrder Once NothingRuns AllDone Collected
PROPERTIES Ends
CHECK_DEADLOCK FALSE
